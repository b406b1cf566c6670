"""Path operations on symbolic paths, compared with definitions by characters."""
from . import text as T

CHARS = (('.', '/'), ('a', 'c'))


def has(ctx, c, x):
    return T.is_(ctx, c, x)


class Def:
    """What the parts of a path are."""

    def __init__(self, ctx, s):
        self.ctx = ctx
        cut = 0
        for i, c in enumerate(s):
            if has(ctx, c, '/'):
                cut = i + 1
        self.name = s[cut:]
        # the parent, without the slashes in front of the name (unless there is nothing else)
        head = s[:cut]
        j = len(head)
        while j and has(ctx, head[j - 1], '/'):
            j -= 1
        self.parent = head[:j] if j else head
        # extension: from the last dot that has something other than dots in front
        dot = None
        plain = False
        for i, c in enumerate(self.name):
            if has(ctx, c, '.'):
                if plain:
                    dot = i
            else:
                plain = True
        self.ext = '' if dot is None else self.name[dot:]
        self.root = s[:len(s) - len(self.ext)]


def starts(ctx, s, p):
    return len(s) >= len(p) and T.is_(ctx, s[:len(p)], p)


def join(ctx, a, b):
    if b and has(ctx, b[0], '/'):
        return b
    if not a or has(ctx, a[-1], '/'):
        return a + b
    return a + '/' + b


def components(ctx, s):
    out = ['']
    for c in s:
        if has(ctx, c, '/'):
            out.append('')
        else:
            out[-1] += c
    return out


OPS = ('parts', 'join', 'ext', 'root', 'all')


def ops(ctx, op='parts', maxlen=4, other=(0, 2), static=False):
    ranges = tuple((ord(a), ord(b)) for a, b in CHARS)
    s = ctx.text('path', 0, maxlen, ranges)
    pm, = T.load(ctx, 'fbuild.path')
    P = pm.Path
    me = s if static else P(s)

    def call(name, *a):
        return getattr(P, name)(me, *a)

    def same(got, want, what, path=True):
        if path:
            ctx.check(isinstance(got, P), 'the results are paths', what)
        ctx.check(len(got) == len(want), what, (s, str(got), want))
        ctx.check(T.same(ctx, got, want), what, (s, str(got), want))

    def text(name):
        return ctx.text(name, other[0], other[1], ranges)
    d = Def(ctx, s)
    if op == 'parts':
        same(P(s), s, 'a path is the text it was made of')
        for n in ('basename',):
            same(call(n), d.name, 'basename is the last component')
        same(call('dirname'), d.parent, 'dirname is all but the last component')
        h, t = call('split')
        same(h, d.parent, 'split returns parent and name')
        same(t, d.name, 'split returns parent and name')
        r, e = call('splitext')
        same(r, d.root, 'splitext separates the extension')
        same(e, d.ext, 'splitext separates the extension', False)
        if not static:
            same(me.name, d.name, 'name is the last component')
            same(me.parent, d.parent, 'parent is all but the last component')
            same(me.ext, d.ext, 'ext is the extension', False)
        prefix = ctx.text('prefix', 1, 2, ((97, 99),))
        same(call('addprefix', prefix), join(ctx, d.parent, prefix + d.name), 'addprefix changes the name only')
    elif op == 'join':
        o = text('other')
        want = join(ctx, s, o)
        same(P(s, o), want, 'paths are joined with one slash')
        same(P(s) / o, want, 'paths are joined with one slash')
        same(s / P(o), want, 'paths are joined with one slash')
        same(P(s) + o, s + o, 'text is appended')
    elif op == 'ext':
        e = '.' + ctx.text('ext', 0, 2, ((97, 99),))
        same(call('replaceext', e), d.root + e, 'replaceext replaces the extension only')
        same(call('replaceext', d.ext), s, 'replacing the extension with itself changes nothing')
        a, b, x = '.' + ctx.text('from1', 1, 1, ((97, 99),)), '.' + ctx.text('from2', 1, 2, ((97, 99),)), '.x'
        ctx.assume(not T.is_(ctx, a, b) if len(a) == len(b) else True)
        want = s
        if len(d.ext) == len(a) and T.is_(ctx, d.ext, a):
            want = d.root + x
        elif len(d.ext) == len(b) and T.is_(ctx, d.ext, b):
            want = d.root + '.yy'
        same(call('replaceexts', {a: x, b: '.yy'}), want, 'replaceexts replaces listed extensions only')
    elif op == 'root':
        r = text('root')
        if starts(ctx, s, r):
            want = s
        elif s and has(ctx, s[0], '/'):
            want = join(ctx, r, d.name)
        else:
            want = join(ctx, r, s)
        same(call('addroot', r), want, 'addroot puts the root in front unless it is there')
        same(call('removeroot', r), s[len(r):] if starts(ctx, s, r) else s, 'removeroot removes the root if it is there')
    elif op == 'all':
        comps = components(ctx, s)
        # without repeated slashes
        ctx.assume('' not in comps[1:-1])
        got = call('splitall')
        want = [c for c in comps]
        if s and want[0] == '':
            want[0] = '/'
            if len(s) == 1:
                want.pop()
        elif not s:
            want = []
        ctx.check(len(got) == len(want), 'splitall returns all components', (s, list(map(str, got)), want))
        for g, w in zip(got, want):
            same(g, w, 'splitall returns all components', False)
        if s:
            same(P(*got), s, 'the components of a path make the path')
        got = P(s).normpath()
        out = []
        absolute = s and comps[0] == ''
        for c in comps:
            if c == '' or T.is_(ctx, c, '.'):
                continue
            if T.is_(ctx, c, '..'):
                if out and not T.is_(ctx, out[-1], '..'):
                    out.pop()
                    continue
                if absolute:
                    continue
            out.append(c)
        same(got, ('/' if absolute else '') + '/'.join(out) or '.', 'normpath removes what is redundant')
    elif op == 'rel':
        start = ctx.text('start', 1, other[1], ranges)
        for x in (s, start):
            ctx.assume(len(x) > 0 and not has(ctx, x[0], '/'))
            ctx.assume(not any(T.is_(ctx, c, '..') for c in components(ctx, x)))
        rel = call('relpath', start)
        ctx.check(isinstance(rel, P), 'the results are paths')
        same((P(start) / rel).normpath(), str(P(s).normpath()), 'relpath leads from the start to the path')
        ctx.check(not has(ctx, str(rel)[0], '/'), 'relpath is relative', (s, start, rel))
    ctx.reach('done')
    ctx.observe((s,))
    ctx.sample(length=len(s))
