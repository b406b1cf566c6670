"""Which changes of a file count: exactly those of its bytes."""
from symx.world import World, tok, untok

TEXT = '''
from fbuild.db import caches, SRC
from fbuild.path import Path

@caches
def f(ctx, s: SRC):
    return W.body(ctx)

@caches
def h(ctx, a):
    ctx.db.add_external_dependencies_to_call(srcs=[W.w.path('s0')])
    return W.body(ctx)
'''


class Body:
    def __init__(self, w):
        self.w = w
        self.runs = 0

    def body(self, ctx):
        self.runs += 1
        return self.w.read('s0')


def content(ctx, engine, fillers=(0, 65520, 200000), tails=(0, 70000), rounds=2):
    """The file is rewritten between two calls: with some other bytes somewhere
    in it, or with a longer or shorter file, at any time; its modification time
    moves in any direction, or it stays and the file is fresh."""
    w = World(ctx)
    b = Body(w)
    p = w.process(engine)
    m = w.user_module('fbuser', TEXT, W=b)
    p.connect()
    which = ctx.pick('which', ['src', 'external'])
    filler, tail = ctx.pick('filler', fillers), ctx.pick('tail', tails)
    hist = []
    now = 0.0
    for r in range(rounds):
        c = ctx.atom('c%d' % r, 0, 99999)
        mt = ctx.real4('m%d' % r, 0, 400)
        new = ctx.real4('now%d' % r, 0, 400)
        ctx.assume(new >= now)
        now = new
        w.set_now(now)
        if r:
            kind = ctx.pick('kind%d' % r, ['bytes', 'touched', 'longer', 'shorter', 'grows in front'])
            if kind == 'touched':
                c = hist[-1][0]
            elif kind == 'longer':
                tail += 1
            elif kind == 'shorter':
                ctx.assume(tail > 0)
                tail -= 1
            elif kind == 'grows in front':
                filler += 1
            same = [ctx.all([ctx.eq(c, o[0]), o[1:3] == (filler, tail)]) for o in hist]
            for o, e in zip(hist, same):
                ctx.assume(ctx.any([e, mt != o[3], now - mt <= 1.0]))
        w.write('s0', c, mt, filler=filler, tail=tail)
        n0 = b.runs
        arg = m.Path(w.path('s0'))
        got = m.f(p.ctx, arg) if which == 'src' else m.h(p.ctx, 1)
        ctx.check(lambda: ctx.eq(got, c), 'a change of the bytes is noticed', r)
        ran = b.runs > n0
        if r:
            ctx.reach('ran' if ran else 'hit')
            if ran:
                ctx.check(lambda: ctx.neg(same[-1]), 'an unchanged file is no change')
            else:
                ctx.check(lambda: ctx.any(same), 'a change of the bytes is noticed', r)
        hist.append((c, filler, tail, mt))
        ctx.observe((ran, got))
    ctx.sample(engine=engine, which=which, sizes=[h[1:3] for h in hist])
    p.close()


def digest(ctx, sizes):
    """Path.digest: equal exactly for equal bytes."""
    from symx import fresh
    w = World(ctx)
    fresh.forget()
    path, = fresh.load('fbuild.path')
    out = []
    for i in range(2):
        c = ctx.atom('c%d' % i, 0, 99999)
        f, t = ctx.pick('filler%d' % i, sizes), ctx.pick('tail%d' % i, sizes)
        w.write('x%d' % i, c, filler=f, tail=t)
        chunk = ctx.pick('chunk%d' % i, [None, 1000])
        px = path.Path(w.path('x%d' % i))
        out.append((c, f, t, px.digest() if chunk is None else px.digest(chunk)))
    same = ctx.all([ctx.eq(out[0][0], out[1][0]), out[0][1:3] == out[1][1:3]])
    ctx.check(lambda: ctx.eq(same, out[0][3] == out[1][3]), 'digests are equal exactly for equal bytes')
    ctx.observe(out[0][3] == out[1][3])
    ctx.sample(sizes=[o[1:3] for o in out])
