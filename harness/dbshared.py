"""Several cached calls that use the same file, some of which fail."""
from symx.world import World, tok, untok

HEADER = '''
from fbuild.db import caches, SRC, SRCS
from fbuild.path import Path
def P(n): return Path(W.w.path(n))
'''
FUNS = {
    'src': '''
@caches
def %(f)s(ctx, a, s: SRC):
    return W.body(%(f)r, ctx, a, False)
def do_%(f)s(ctx, a): return %(f)s(ctx, a, P('s0'))
''',
    'srcs': '''
@caches
def %(f)s(ctx, a, ss: SRCS):
    return W.body(%(f)r, ctx, a, False)
def do_%(f)s(ctx, a): return %(f)s(ctx, a, [P('s0'), P('s0')])
''',
    'ext': '''
@caches
def %(f)s(ctx, a):
    return W.body(%(f)r, ctx, a, True)
def do_%(f)s(ctx, a): return %(f)s(ctx, a)
''',
}


class Boom(Exception):
    pass


class User:
    def __init__(self, ctx, w, fail):
        self.c, self.w, self.fail = ctx, w, fail
        self.runs = []
        self.k = 0

    def body(self, f, ctx, a, external):
        self.runs.append((f, a))
        c = self.w.read('s0')
        if external:
            ctx.db.add_external_dependencies_to_call(srcs=[self.w.path('s0')])
        if self.fail:
            self.k += 1
            if self.c.is_true(self.c.bool('fail%d' % self.k)):
                raise Boom(f)
        return ('result', f, a, c)


def shared(ctx, engine, kinds=('src', 'src'), args=(0,), steps=4, fail=False, props='both',
           restart=True, nofirst=False):
    w = World(ctx)
    u = User(ctx, w, fail)
    calls = [('f%d' % i, a) for i in range(len(kinds)) for a in args]
    restart = restart and engine != 'cache' and ctx.pick('restart', 2)
    text = HEADER + ''.join(FUNS[k] % dict(f='f%d' % i) for i, k in enumerate(kinds))
    proc = None
    w.set_now(1000.0)
    hist = []       # (content) of every step
    done = {}       # call -> steps where it ran successfully
    last = {}       # call -> (step of its last attempt, failed)
    for s in range(steps):
        c = ctx.atom('content%d' % s, 0, None if ctx.symbolic else 99999)
        w.write('s0', c, 1.0 + 2 * s)
        hist.append(c)
        if proc is None or restart:
            if proc is not None:
                proc.close()
            proc = w.process(engine)
            mod = w.user_module('fbuser', text, W=u)
            proc.connect()
        f, a = ctx.pick('call%d' % s, calls) if s or nofirst else calls[0]
        n0 = len(u.runs)
        failed = False
        result = None
        try:
            result = getattr(mod, 'do_' + f)(proc.ctx, a)
        except Boom:
            failed = True
            ctx.reach('failed call')
        ran = u.runs[n0:]
        ctx.check(ran in ([], [(f, a)]), 'only the function that was called runs')
        if failed:
            ctx.check(bool(ran), 'a failure is never replayed from the cache')
        elif props in ('both', 'sound'):
            ctx.check(lambda: ctx.eq(result, ('result', f, a, c)),
                      'result is what running the function now gives', 'step %d ran=%s' % (s, ran))
        if (f, a) in last:
            j, jfailed = last[f, a]
            same = ctx.all([ctx.eq(hist[i], c) for i in range(j, s)])
            if jfailed:
                # unless it was successful before with what the file contains now
                ctx.check(lambda: bool(ran) or ctx.any(ctx.eq(hist[i], c) for i in done.get((f, a), ())),
                          'a call that failed runs again')
            elif ran and props in ('both', 'eff'):
                ctx.reach('ran')
                ctx.check(ctx.neg(same), 'an unchanged call is not run again', 'step %d' % s)
        if not ran:
            ctx.reach('hit')
        ctx.observe((s, f, a, bool(ran), failed, result))
        last[f, a] = (s, failed)
        if not failed and ran:
            done.setdefault((f, a), []).append(s)
    ctx.sample(engine=engine, kinds=kinds, steps=steps)
    proc.close()
