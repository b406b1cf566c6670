"""Cached calls and the files they use: soundness and effectiveness."""
import os

from symx.world import World, tok, untok

# kind -> (function text, how to call it, declared srcs, external srcs,
#          declared dsts, external dsts)
# Inside the text VER is the token of the function's source version.
KINDS = {
    'plain': dict(sig='(ctx, a)', args='a', src=[], ext=[], dst=[], edst=[]),
    'src': dict(sig='(ctx, a, s: SRC)', args='a, P("s0")', src=['s0'], ext=[], dst=[], edst=[]),
    'srcs': dict(sig='(ctx, a, ss: SRCS)', args='a, [P("s0"), P("s1")]', src=['s0', 's1'], ext=[], dst=[], edst=[]),
    'optsrc': dict(sig='(ctx, a, o: OPTIONAL_SRC=None, s: OPTIONAL_SRC=None)', args='a, s=P("s0")', src=['s0'], ext=[], dst=[], edst=[]),
    'ext': dict(sig='(ctx, a)', args='a', src=[], ext=['h0'], dst=[], edst=[]),
    'srcext': dict(sig='(ctx, a, s: SRC)', args='a, P("s0")', src=['s0'], ext=['h0'], dst=[], edst=[]),
    # (only annotations of functions and methods are looked at)
    'ext2': dict(sig='(ctx, a)', args='a', src=[], ext=['h0', 'h1'], dst=[], edst=[]),
    'dst': dict(sig='(ctx, a, d: DST)', args='a, P("d0")', src=[], ext=[], dst=['d0'], edst=[]),
    'dsts': dict(sig='(ctx, a, ds: DSTS)', args='a, [P("d0"), P("d1")]', src=[], ext=[], dst=['d0', 'd1'], edst=[]),
    'optdst': dict(sig='(ctx, a, e: OPTIONAL_DST=None, d: OPTIONAL_DST=None)', args='a, d=P("d0")', src=[], ext=[], dst=['d0'], edst=[]),
    'edst': dict(sig='(ctx, a)', args='a', src=[], ext=[], dst=[], edst=['d0']),
    'edst2': dict(sig='(ctx, a, s: SRC)', args='a, P("s0")', src=['s0'], ext=[], dst=[], edst=['d0', 'd1']),
    'ret': dict(sig='(ctx, a) -> DST', args='a', src=[], ext=[], dst=['d0'], edst=[], ret='one'),
    'rets': dict(sig='(ctx, a) -> DSTS', args='a', src=[], ext=[], dst=['d0', 'd1'], edst=[], ret='many'),
    'mixed': dict(sig='(ctx, a, s: SRC, d: DST)', args='a, P("s0"), P("d0")', src=['s0'], ext=['h0'], dst=['d0'], edst=['d1']),
}

HEADER = '''
from fbuild.db import (caches, cachemethod, cacheproperty, PersistentObject,
    SRC, SRCS, DST, DSTS, OPTIONAL_SRC, OPTIONAL_DST)
from fbuild.path import Path
def P(n): return Path(W.path(n))
'''

FORMS = {
    'function': '''
@caches
def f%(sig)s:
    """a cached function"""
    def run():

        return W.body('f', '%(ver)s', ctx, a)
    return run()

def do(ctx, a): return f.call(ctx, %(args)s)
''',
    'method': '''
class C(PersistentObject):
    def __init__(self, ctx):
        super().__init__(ctx)
    @cachemethod
    def f%(sig)s:
        ctx = self.ctx
        return W.body('f', '%(ver)s', ctx, a)

def do(ctx, a): return C(ctx).f.call(%(args)s)
''',
    'object': '''
class F(PersistentObject):
    def __init__%(sig)s:
        super().__init__(ctx)
        self.r = W.body('f', '%(ver)s', ctx, a)

def do(ctx, a): return (F(ctx, %(args)s).r, None, None)
''',
}


class Body:
    """What cached user functions do when they run."""

    def __init__(self, world, k):
        self.w = world
        self.k = k
        self.runs = []

    def path(self, n):
        return self.w.path(n)

    def value(self, v, a):
        k = self.k
        if k.get('ret') == 'one':
            return self.w.path('d0')
        if k.get('ret') == 'many':
            return [self.w.path('d0'), self.w.path('d1')]
        return ('f', v, a, tuple(self.content(n) for n in k['src'] + k['ext']))

    def content(self, n):
        c = self.w.read(n)
        return 'missing' if c is None else c

    def body(self, name, ver, ctx, a):
        w, k = self.w, self.k
        v = untok(ver) if ver != 'x' else 0
        self.runs.append(name)
        present = [w.path(n) for n in k['ext'] if w.exists(n)]
        for n in k['dst'] + k['edst']:
            w.write(n, None)
        if present or k['edst']:
            ctx.db.add_external_dependencies_to_call(
                srcs=present, dsts=[w.path(n) for n in k['edst']])
        return self.value(v, a)


def files(ctx, engine, kind, form='function', rounds=3, deletes=True, props='both', fixarg=False, lite=False,
          restarts=('none', 'clean', 'kill')):
    w = World(ctx)
    k = dict(KINDS[kind])
    b = Body(w, k)
    inputs = k['src'] + k['ext']
    outputs = k['dst'] + k['edst']
    proc = None
    hist = []
    now = 0.0
    ver = None
    for r in range(rounds):
        # ---- the environment changes arbitrarily ----
        restart = 'start' if proc is None else \
            'none' if engine == 'cache' else ctx.pick('restart%d' % r, restarts)
        if restart in ('clean', 'kill'):
            if restart == 'clean':
                proc.close()
            else:
                proc.kill()
            proc = None
        new = ctx.real4('now%d' % r, 0, 60)
        ctx.assume(new >= now)
        now = new
        w.set_now(now)
        contents, mtimes, present = {}, {}, {}
        for n in inputs:
            gone = deletes and n in k['ext'] and ctx.is_true(ctx.bool('gone_%s_%d' % (n, r)))
            # (a function cannot register a file it did not find, so a file
            # that is gone stays gone)
            gone = gone or any(not h['present'][n] for h in hist)
            present[n] = not gone
            if gone:
                w.remove(n)
                continue
            c = contents[n] = ctx.atom('content_%s_%d' % (n, r), 0, 99999 if not ctx.symbolic else None)
            # (lite: all but the first file are always rewritten)
            m = mtimes[n] = now if lite and n != inputs[0] else \
                ctx.real4('mtime_%s_%d' % (n, r), 0, 60)
            for h in hist:
                if n in h['contents']:
                    # the modification time tells contents apart, or the file
                    # is at most a second old when it is looked at
                    ctx.assume(ctx.any([ctx.eq(c, h['contents'][n]),
                                        m != h['mtimes'][n], now - m <= 1.0]))
            w.write(n, c, m)
        dead = False
        if hist and deletes:
            for n in outputs:
                if w.exists(n) and ctx.is_true(ctx.bool('del_%s_%d' % (n, r))):
                    w.remove(n)
        outs = all(w.exists(n) for n in outputs)
        if proc is None:
            proc = w.process(engine)
            ver = ctx.atom('version_%d' % r, 0, None)
            text = HEADER + FORMS[form] % dict(
                sig=k['sig'].replace('(ctx, ', {'method': '(self, ', 'object': '(self, ctx, '}.get(form, '(ctx, ')),
                args=k['args'], ver=tok(ver))
            mod = w.user_module('fbuser', text, W=b)
            proc.connect()
        a = ctx.atom('arg_%d' % r, 0, None) if not fixarg else 7
        ver_now = ver
        expected = b.value(ver_now, a)
        # ---- the call ----
        n0 = len(b.runs)
        result, srcs, dsts = mod.do(proc.ctx, a)
        ran = len(b.runs) > n0
        h = dict(contents=contents, mtimes=mtimes, present=present, ver=ver_now, arg=a,
                 restart=restart, outs=outs)
        # soundness: the answer a fresh evaluation would give now
        if props in ('both', 'sound'):
          ctx.check(lambda: ctx.eq(_plain(result), _plain(expected)), 'result is what running the function now gives',
                  'round %d ran=%s' % (r, ran))
          for n in outputs:
            ctx.check(w.exists(n), 'every destination exists after the call', n)
        if srcs is not None and props in ('both', 'sound'):
            want_s = set(w.path(n) for n in k['src'] + k['ext'] if present.get(n, True))
            want_d = set(w.path(n) for n in outputs)
            ctx.check(set(map(str, srcs)) == want_s, 'reported sources', '%r' % (srcs,))
            ctx.check(set(map(str, dsts)) == want_d, 'reported destinations', '%r' % (dsts,))
        # effectiveness: nothing changed since the same call => not run again
        if ran:
            ctx.reach('ran')
            def unchanged():
              same = []
              for j in range(len(hist) - 1, -1, -1):
                  span = hist[j:] + [h]
                  if any(s['restart'] == 'kill' for s in span[1:]):
                      break
                  if not all(s['present'] == h['present'] for s in span) or not outs or \
                          not all(h['present'].values()):
                      break
                  conds = [ctx.eq(hist[j]['arg'], a)]
                  for s in span:
                      conds.append(ctx.eq(s['ver'], ver_now))
                      for n in inputs:
                          conds.append(ctx.eq(s['contents'][n], contents[n]))
                  same.append(ctx.all(conds))
              return ctx.neg(ctx.any(same))
            if props in ('both', 'eff'):
              ctx.check(unchanged, 'an unchanged call is not run again', 'round %d' % r)
        else:
            ctx.reach('hit')
        ctx.observe((r, ran, _plain(result)))
        hist.append(h)
    ctx.sample(engine=engine, kind=kind, form=form, runs=len(b.runs), rounds=rounds)
    proc.close()


def _plain(v):
    if isinstance(v, str):
        return str(v)
    if isinstance(v, (list, tuple)):
        return tuple(_plain(x) for x in v)
    return v
