"""Cached calls are told apart by what is called and with which arguments,
however they are spelled; every kind of result survives."""
from symx.world import World, tok, untok

MOD = '''
from fbuild.db import caches, cachemethod, cacheproperty, PersistentObject
from fbuild.functools import wraps
%(imports)s
def more(inner):
    @wraps(inner)
    def outer(*args, **kw):
        return (kw.pop('__FBUILD_INNER')(*args, **kw), 'more')
    return outer

@caches
@more
def h(ctx, a, b=%(dflt)s, *rest, k=%(dflt)s, **kw):
    return W.body(__name__ + '.h', '%(ver)s', (a, b, rest, k, tuple(sorted(kw.items()))))

@caches
def f(ctx, a, b=%(dflt)s, *rest, k=%(dflt)s, **kw):
    return W.body(__name__ + '.f', '%(ver)s', (a, b, rest, k, tuple(sorted(kw.items()))))

@caches
def g(ctx, a, b=%(dflt)s, *rest, k=%(dflt)s, **kw):
    return W.body(__name__ + '.g', '%(ver)s', (a, b, rest, k, tuple(sorted(kw.items()))))

class C(%(base)s):
    %(init)s
    @cachemethod
    def m(self, a, b=%(dflt)s):
        return W.body(__name__ + '.C.m', '%(ver)s', (self.x, getattr(self, 'y', None), a, b))
    @cachemethod
    def n(self, a, b=%(dflt)s):
        return W.body(__name__ + '.C.n', '%(ver)s', (self.x, getattr(self, 'y', None), a, b))
    @cachemethod
    @more
    def w(self, a, b=%(dflt)s):
        return W.body(__name__ + '.C.w', '%(ver)s', (self.x, getattr(self, 'y', None), a, b))
    %(prop)s

class D(C):
    def __init__(self, ctx, x, y=%(dflt)s):
        super().__init__(ctx, x)
        self.y = y
'''
INIT = '''def __init__(self, ctx, x):
        super().__init__(ctx)
        self.x = x
        self.r = W.body(__name__ + '.C', '%s', (x,))
'''
PROP = '''@cacheproperty
    def p(self):
        return W.body(__name__ + '.C.p', '%s', (self.x, getattr(self, 'y', None)))
'''

DFLT = 99999


class Body:
    def __init__(self, results):
        self.runs = []
        self.results = results

    def body(self, name, ver, args):
        self.runs.append(name)
        return self.value(name, untok(ver), args)

    def value(self, name, ver, args):
        if self.results is not None:
            return self.results
        return (name, ver, args)


# every way to make a call: name -> (what is called, spelling, arguments)
def spellings(m1, m2, a, b):
    t = {}
    for i, m in ((1, m1), (2, m2)):
        n = m.__name__
        for f in 'fgh':
            fn = getattr(m, f)
            t['%s.%s(a)' % (i, f)] = (n + '.' + f, (a, DFLT, (), DFLT, ()), lambda c, fn=fn: fn(c, a))
            t['%s.%s(a=a)' % (i, f)] = (n + '.' + f, (a, DFLT, (), DFLT, ()), lambda c, fn=fn: fn(c, a=a))
            t['%s.%s(a,b)' % (i, f)] = (n + '.' + f, (a, b, (), DFLT, ()), lambda c, fn=fn: fn(c, a, b))
            t['%s.%s(b=b,a=a)' % (i, f)] = (n + '.' + f, (a, b, (), DFLT, ()), lambda c, fn=fn: fn(c, b=b, a=a))
            t['%s.%s(a,99999)' % (i, f)] = (n + '.' + f, (a, DFLT, (), DFLT, ()), lambda c, fn=fn: fn(c, a, DFLT))
            t['%s.%s(b,a)' % (i, f)] = (n + '.' + f, (b, a, (), DFLT, ()), lambda c, fn=fn: fn(c, b, a))
            t['%s.%s(a,b,a)' % (i, f)] = (n + '.' + f, (a, b, (a,), DFLT, ()), lambda c, fn=fn: fn(c, a, b, a))
            t['%s.%s(a,k=b)' % (i, f)] = (n + '.' + f, (a, DFLT, (), b, ()), lambda c, fn=fn: fn(c, a, k=b))
            t['%s.%s(a,z=b)' % (i, f)] = (n + '.' + f, (a, DFLT, (), DFLT, (('z', b),)), lambda c, fn=fn: fn(c, a, z=b))
        for k, extra in (('C', ()), ('D', (DFLT,))):
            cl = getattr(m, k)
            y = extra[0] if extra else None
            if i == 1:
                t['%s.%s(a)' % (i, k)] = (n + '.' + k, (a,) + extra, lambda c, cl=cl: cl(c, a))
            t['%s.%s(a).m(b)' % (i, k)] = (n + '.%s.m' % k, (a, y, b, DFLT), lambda c, cl=cl: cl(c, a).m(b))
            t['%s.%s(a).n(b)' % (i, k)] = (n + '.%s.n' % k, (a, y, b, DFLT), lambda c, cl=cl: cl(c, a).n(b))
            t['%s.%s(a).w(b)' % (i, k)] = (n + '.%s.w' % k, (a, y, b, DFLT), lambda c, cl=cl: cl(c, a).w(b))
            t['%s.%s(a).w(a=b)' % (i, k)] = (n + '.%s.w' % k, (a, y, b, DFLT), lambda c, cl=cl: cl(c, a).w(a=b))
            t['%s.%s(a).m(a=b)' % (i, k)] = (n + '.%s.m' % k, (a, y, b, DFLT), lambda c, cl=cl: cl(c, a).m(a=b))
            t['%s.%s(a).m(a,b)' % (i, k)] = (n + '.%s.m' % k, (a, y, a, b), lambda c, cl=cl: cl(c, a).m(a, b))
            t['%s.%s(a).p' % (i, k)] = (n + '.%s.p' % k, (a, y), lambda c, cl=cl: cl(c, a).p)
        t['%s.D(a,b).m(a)' % i] = (n + '.D.m', (a, b, a, DFLT), lambda c, cl=m.D: cl(c, a, b).m(a))
        t['%s.D(a,y=b).p' % i] = (n + '.D.p', (a, b), lambda c, cl=m.D: cl(c, a, y=b).p)
    return t


GROUPS = {
    'functions': ['1.f(a)', '1.f(a,b)', '1.f(b=b,a=a)', '1.f(a,99999)', '1.f(a,k=b)', '1.f(a,z=b)',
                  '1.f(a,b,a)', '1.f(b,a)', '1.f(a=a)'],
    'names': ['1.f(a)', '1.g(a)', '2.f(a)', '1.C(a).m(b)', '1.C(a).n(b)', '2.C(a).m(b)', '1.D(a).m(b)',
              '1.C(a).p', '2.C(a).p', '1.D(a).p', '2.D(a).p'],
    'objects': ['1.C(a)', '1.D(a)', '1.C(a).m(b)', '1.C(a).m(a=b)', '1.C(a).m(a,b)', '1.C(a).p',
                '1.D(a,b).m(a)', '1.D(a,y=b).p', '2.D(a,b).m(a)'],
    'wrapped': ['1.h(a)', '1.h(a=a)', '1.h(a,b)', '1.h(a,z=b)', '1.C(a).w(b)', '1.C(a).w(a=b)', '1.D(a).w(b)', '2.C(a).w(b)'],
    'results': ['1.f(a)', '1.C(a).m(b)', '1.C(a).p'],
}

RESULTS = [None, False, 0, '', (), [], {}, 'text', ('a', (1, None)), [1, [2]], {'k': None}, 1.5]


def _base(w, b, ver):
    w.user_module('fbuser1', MOD % dict(
        imports='', base='PersistentObject', dflt=DFLT, ver=ver,
        init=INIT % ver, prop=PROP % ver), W=b)


def forms(ctx, engine, group, rounds=2, versions=False, results=False, restarts=('none', 'clean')):
    w = World(ctx)
    b = Body(None)
    hist = []
    proc = None
    for r in range(rounds):
        how = 'start' if proc is None else 'none' if engine == 'cache' else \
            ctx.pick('restart%d' % r, restarts)
        if how == 'clean':
            proc.close()
            proc = None
        if proc is None:
            proc = w.process(engine)
            if versions or r == 0 or not hist:
                ver = ctx.atom('version%d' % r, 0, None)
            for i in (1, 2):
                m = w.user_module('fbuser%d' % i, MOD % dict(
                    imports='' if i == 1 else 'import fbuser1',
                    base='PersistentObject' if i == 1 else 'fbuser1.C',
                    dflt=DFLT, ver=tok(ver),
                    init=INIT % tok(ver) if i == 1 else 'pass',
                    prop=PROP % tok(ver)), W=b)
                if i == 1:
                    m1 = m
            proc.connect()
        a = ctx.atom('a%d' % r, 0, 99999)
        bb = ctx.atom('b%d' % r, 0, 99999)
        table = spellings(m1, m, a, bb)
        name = ctx.pick('call%d' % r, GROUPS[group])
        what, args, do = table[name]
        if results:
            b.results = ctx.pick('result', RESULTS) if r == 0 else b.results
        n0 = len(b.runs)
        got = do(proc.ctx)
        body = _body_name(what)
        ran = body in b.runs[n0:]
        if isinstance(got, m1.C):
            ctx.check(type(got) is getattr(m1, what.split('.')[1]), 'an object of the class that was called', what)
            ctx.check(lambda: ctx.eq(got.x, args[0]), 'result is what running the call now gives', name)
            if what.endswith('D'):
                ctx.check(lambda: ctx.eq(got.y, args[1]), 'result is what running the call now gives', name)
            got = got.r
            want = b.value('fbuser1.C', ver, args[:1])
        else:
            want = b.value(body, ver, args)
            if what[-2:] in ('.h', '.w'):
                want = (want, 'more')
        ctx.check(lambda: ctx.eq(got, want), 'result is what running the call now gives', name)
        ctx.check(type(got) is type(want), 'result is what running the call now gives', name)
        if ran:
            ctx.reach('ran')
            ctx.check(lambda: ctx.neg(ctx.any(
                ctx.all([ctx.eq(h['ver'], ver), ctx.eq(h['args'], args)])
                for h in hist if h['what'] == what)), 'an unchanged call is not run again', name)
        else:
            ctx.reach('hit')
            ctx.check(bool(hist), 'the first call runs')
        ctx.observe((name, ran, got))
        hist.append(dict(what=what, args=args, ver=ver))
    ctx.sample(engine=engine, group=group, last=name)
    proc.close()


def _body_name(what):
    """Which body runs for a call (methods may be inherited)."""
    return {'fbuser1.D': 'fbuser1.C', 'fbuser2.C': 'fbuser1.C',
            'fbuser1.D.m': 'fbuser1.C.m', 'fbuser2.D.m': 'fbuser2.C.m',
            'fbuser1.D.n': 'fbuser1.C.n', 'fbuser2.D.n': 'fbuser2.C.n',
            'fbuser1.D.w': 'fbuser1.C.w', 'fbuser2.D.w': 'fbuser2.C.w',
            'fbuser1.D.p': 'fbuser1.C.p', 'fbuser2.D.p': 'fbuser2.C.p'}.get(what, what)
