"""Options that depend on the platform."""
from . import text as T


def options(ctx, entries=2, keys=1, kinds=('list', 'tuple', 'set', 'str'), given=True, pass_platform=False, calls=2, length=2, fixed=False, features=2):
    P, C = T.load(ctx, 'fbuild.builders.platform', 'fbuild.context')
    FEATURES = ['posix', 'windows'][:features]
    platform = {f for f in FEATURES if ctx.is_true(ctx.bool('is_' + f))} | {'any'}
    n = [0]

    def elem():
        n[0] += 1
        return ctx.atom('value%d' % n[0], 0, None)

    def value(name, kind):
        if kind == 'str':
            return ctx.text(name, length if fixed else 0, length, ((97, 100),))
        size = length if fixed else ctx.pick(name + '_size', range(length + 1))
        v = [elem() for _ in range(size)]
        return {'list': list, 'tuple': tuple, 'set': set}[kind](v)
    kwargs = {}
    types = {}
    for k in range(keys):
        kind = types['key%d' % k] = ctx.pick('kind%d' % k, kinds)
        if given and ctx.is_true(ctx.bool('given%d' % k)):
            kwargs['key%d' % k] = value('given_value%d' % k, kind)
    opts = []
    for e in range(entries):
        matcher = set()
        for f in FEATURES:
            how = ctx.pick('entry%d_%s' % (e, f), ['', 'with', 'without'])
            if how:
                matcher.add(f if how == 'with' else '!' + f)
        key = 'key%d' % (ctx.pick('entry%d_key' % e, range(keys)) if keys > 1 else 0)
        op = ctx.pick('entry%d_op' % e, ['', '+', '-'])
        opts.append((matcher, {key + op: value('entry%d_value' % e, types[key])}))
    # what is meant
    want = dict(kwargs)
    for matcher, o in opts:
        if all((m[1:] not in platform) if m.startswith('!') else (m in platform) for m in matcher):
            for key, v in o.items():
                op = key[-1] if key[-1] in '+-' else ''
                key = key.rstrip('+-')
                cur = want.get(key)
                if cur is None:
                    cur = type(v)()
                if op == '':
                    new = v
                elif op == '+':
                    new = cur | v if isinstance(cur, set) else cur + v
                elif isinstance(cur, str):
                    new = ''.join(c for c in cur if not T.isin(ctx, c, v))
                else:
                    new = type(cur)(x for x in cur if not any(ctx.is_true(ctx.eq(x, y)) for y in v))
                want[key] = new

    class Builder:
        def __init__(self):
            self.ctx = C.Context.__new__(C.Context)

        @P.auto_platform_options(pass_platform)
        def build(self, src, **kw):
            return src, kw

    def copy(v):
        return v if isinstance(v, (str, tuple)) else v.copy()
    before = {k: copy(v) for k, v in kwargs.items()}
    what = (sorted(platform), [(sorted(m), sorted(o)) for m, o in opts])
    b = Builder()
    for i in range(calls):
        src, got = b.build('file', platform=platform, platform_options=opts, **kwargs)
        got = dict(got)
        got_platform = got.pop('platform', None)
        ctx.check(src == 'file' and (got_platform == platform if pass_platform else got_platform is None),
                  'other arguments are passed on', what)
        ctx.check('platform_options' not in got, 'the options themselves are not passed on')
        ctx.check(sorted(got) == sorted(want), 'options of matching platforms apply', what)
        for k in want:
            same(ctx, got[k], want[k], 'options of matching platforms apply', what)
        for k in before:
            same(ctx, kwargs[k], before[k], "the caller's values stay as they are", what)
    ctx.reach('applied')
    ctx.observe((what, len(want)))
    ctx.sample(platform=sorted(platform))


def same(ctx, a, b, label, what):
    ctx.check(type(a) is type(b), label, what)
    ctx.check(len(a) == len(b), label, what)
    if isinstance(a, set):
        ok = ctx.all([ctx.any([ctx.eq(x, y) for y in b]) for x in a])
    else:
        ok = ctx.all([ctx.eq(x, y) for x, y in zip(a, b)])
    ctx.check(ok, label, what)
