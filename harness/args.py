"""Binding arguments to parameters, compared with what Python does."""
from symx import fresh


def binding(ctx, maxpos=2, maxkw=2, extra=2, method=False, wrapped=False, special=False):
    fresh.forget()
    f, = fresh.load('fbuild.functools')
    npos = ctx.pick('positional', range(maxpos + 1))
    ndef = ctx.pick('defaults', range(npos + 1))
    star = ctx.is_true(ctx.bool('varargs'))
    nkw = ctx.pick('kwonly', range(maxkw + 1))
    kwdef = [ctx.is_true(ctx.bool('kwdefault%d' % i)) for i in range(nkw)]
    kwargs = ctx.is_true(ctx.bool('varkw'))
    vals = {}
    nones = ctx.pick('nones', ['given', 'defaults']) if special else ''

    def val(name):
        if name not in vals and name.startswith('default') == (nones == 'defaults') and nones:
            vals[name] = None
        if name not in vals:
            vals[name] = ctx.atom('value_' + name, 0, None)
        return vals[name]
    ps, names = [], []
    for i in range(npos):
        n = 'p%d' % i
        names.append(n)
        ps.append(n if i < npos - ndef else '%s=default(%r)' % (n, n))
    if star:
        ps.append('*rest')
    elif nkw:
        ps.append('*')
    for i in range(nkw):
        n = 'k%d' % i
        names.append(n)
        ps.append('%s=default(%r)' % (n, n) if kwdef[i] else n)
    if kwargs:
        ps.append('**more')
    ns = {'default': lambda n: val('default_' + n)}
    text = 'def f(%s):\n    return dict(locals())\n' % ', '.join(
        (['self'] if method else []) + ps)
    if method:
        exec('class C:\n' + ''.join('    ' + l + '\n' for l in text.splitlines()), ns)
        fun = ns['C']().f
    else:
        exec(text, ns)
        fun = ns['f']
    nargs = ctx.pick('given', range(npos + extra))
    args = tuple(val('arg%d' % i) for i in range(nargs))
    kw = {}
    for n in names + ['x0'] + ['_x'] * special:
        if ctx.is_true(ctx.bool('by_name_' + n)):
            kw[n] = val('kw_' + n)
    # what Python does
    try:
        want = fun(*args, **kw)
        want.pop('self', None)
    except TypeError as e:
        want = None
    target = fun
    if wrapped:
        def outer(*a, **k):
            pass
        target = f.wraps(fun)(outer)
    try:
        got = f.bind_args(target, args, dict(kw))
    except TypeError:
        got = None
    what = '%s called with %d and %s' % (text.splitlines()[0], nargs, sorted(kw))
    if want is None:
        ctx.reach('wrong calls')
        ctx.check(got is None, 'wrong calls are TypeErrors', what)
    else:
        ctx.reach('right calls')
        ctx.check(got is not None, 'right calls are accepted', what)
        ctx.check(sorted(got) == sorted(want), 'every parameter is bound', what)
        ctx.check(lambda: ctx.eq(got, want), 'parameters are bound like in a Python call', what)
        # normalized arguments mean the same call
        a2, k2 = f.normalize_args(fun, args, dict(kw))
        again = fun(*a2, **k2)
        again.pop('self', None)
        ctx.check(lambda: ctx.eq(again, want), 'normalized arguments make the same call', what)
    ctx.observe((what, want is None))
    ctx.sample(call=what)
