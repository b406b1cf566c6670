"""Cached functions that call each other: a change of any of them is noticed."""
import sys

from symx.world import World, tok, untok

HEADER = '''
from fbuild.db import caches
'''

FUN = '''
@caches
def f%(i)d(ctx, a):
    if a is not W:
        x = 1

    return W.body(%(i)d, '%(ver)s', ctx, a)
'''

LAZY = '''
@caches
def f0(ctx, a):
    import fbuserlazy
    return W.body(0, '%(ver)s', ctx, a)
'''


class Boom(Exception):
    pass


class Graph:
    def __init__(self, ctx, w, n, fail, recursive):
        self.c, self.w, self.n = ctx, w, n
        self.fail = fail
        self.recursive = recursive
        self.runs = []
        self.vers = {}
        self.mod = None
        self.k = 0
        self.depth = 0

    gone = None

    def calls(self, i, j, v, a):
        r = self.c.ufbool('calls_%d_%d' % (i, j), v, a)
        if j == self.gone:
            # source that calls a function which is not there cannot run
            self.c.assume(self.c.neg(r))
        return self.c.is_true(r)

    def fun(self, i):
        m = sys.modules.get('fbuserlazy') if self.lazy and i else self.mod
        return getattr(m, 'f%d' % i)

    def probes(self, i, v, a):
        """f_i first tries the last function and ignores its failure."""
        return self.fail and i < self.n - 1 and \
            self.c.is_true(self.c.ufbool('probes_%d' % i, v, a))

    def body(self, i, ver, ctx, a):
        v = untok(ver)
        self.runs.append((i, a))
        if self.probes(i, v, a):
            try:
                self.fun(self.n - 1)(ctx, a)
            except Boom:
                self.c.reach('swallowed failure')
        subs = []
        for j in range(i + 1, self.n):
            if self.calls(i, j, v, a):
                subs.append(self.fun(j)(ctx, a))
        if self.recursive and a == 0 and i == 0:
            subs.append(self.mod.f0(ctx, 1))
        if self.fail and i >= self.n - 2:
            self.k += 1
            if self.c.is_true(self.c.bool('fail%d' % self.k)):
                raise Boom(i, self.k)
        return ('f%d' % i, v, a, tuple(subs))

    def fresh(self, i, a):
        """What evaluating f_i(a) now would give."""
        v = self.vers[i]
        subs = [self.fresh(j, a) for j in range(i + 1, self.n) if self.calls(i, j, v, a)]
        if self.recursive and a == 0 and i == 0:
            subs.append(self.fresh(0, 1))
        return ('f%d' % i, v, a, tuple(subs))


def funcs(ctx, engine, n=3, calls=(2, 1, 1), fail=False, recursive=False, args=1, kills=False,
          props='both', starts=None, lazy=False, removal=False):
    w = World(ctx)
    g = Graph(ctx, w, n, fail, recursive)
    g.lazy = lazy
    hist = []
    proc = None
    k = 0
    same = []       # processes whose versions all equal the current ones
    for p, ncalls in enumerate(calls):
        if proc is not None:
            if kills and ctx.pick('kill%d' % p, 2):
                proc.kill()
                hist = []
            else:
                proc.close()
        proc = w.process(engine)
        proc.connect()
        new = {i: ctx.atom('version%d_%d' % (i, p), 0, None) for i in range(n)}
        for h in hist:
            h['same'] = h['same'] + [ctx.all([ctx.eq(g.vers[i], new[i]) for i in range(n)])]
        g.vers = new
        g.gone = n - 1 if removal and p > 0 and ctx.pick('removed%d' % p, 2) else None
        defs = [FUN % dict(i=i, ver=tok(new[i])) for i in range(n) if i != g.gone]
        if lazy:
            w.lazy_module('fbuserlazy', HEADER + ''.join(defs[1:]), W=g)
            g.mod = w.user_module('fbuser', HEADER + LAZY % dict(ver=tok(new[0])), W=g)
        else:
            g.mod = w.user_module('fbuser', HEADER + ''.join(defs), W=g)
        for q in range(ncalls):
            i = ctx.pick('fun%d_%d' % (p, q), starts or n)
            if i == g.gone:
                ctx.assume(False)
            a = ctx.pick('arg%d_%d' % (p, q), args) if args != 'sym' else ctx.atom('arg%d_%d' % (p, q), 0, None)
            n0 = len(g.runs)
            failed = False
            try:
                result = g.fun(i)(proc.ctx, a)
            except Boom:
                failed = True
                ctx.reach('failed call')
            ran = len(g.runs) > n0
            if failed:
                ctx.check(ran, 'a failure is never replayed from the cache')
            else:
                if props in ('both', 'sound'):
                    want = g.fresh(i, a)
                    ctx.check(lambda: ctx.eq(result, want), 'result is what running the functions now gives',
                              'process %d call %d f%d ran=%s' % (p, q, i, ran))
                if not ran:
                    ctx.reach('hit')
            if ran and props in ('both', 'eff') and not failed:
                ctx.reach('ran')
                ctx.check(lambda: ctx.neg(ctx.any(
                    ctx.all(h['same'] + [ctx.eq(h['arg'], a)])
                    for h in hist if h['fun'] == i and not h['failed'])),
                    'an unchanged call is not run again', 'process %d call %d f%d' % (p, q, i))
            if props in ('both', 'eff') and not fail:
                # nested: every function runs at most once per argument
                seen = g.runs[n0:]
                for x in range(len(seen)):
                    for y in range(x):
                        if seen[x][0] == seen[y][0]:
                            ctx.check(lambda: ctx.neg(ctx.eq(seen[x][1], seen[y][1])),
                                      'a nested call is not run twice')
            ctx.observe((p, q, i, ran, failed))
            hist.append(dict(fun=i, arg=a, failed=failed, same=[]))
    ctx.sample(engine=engine, runs=len(g.runs), calls=calls)
    proc.close()
