"""Globbing in a directory tree with symbolic names."""
import os

from . import globs, text as T


class Node:
    def __init__(self, kind, children=()):
        self.kind = kind                    # 'd', 'f' or 'l' (dangling link)
        self.children = list(children)      # (name, Node)
        self.parent = self


class Tree:
    """A tree of files, as the os functions show it."""

    def __init__(self, ctx, shape, name):
        self.ctx = ctx
        self.n = 0

        def mk(shape):
            kids = []
            for s in shape:
                n = name(self.n)
                self.n += 1
                for o, _ in kids:
                    ctx.assume(ctx.neg(T.same(ctx, n, o)))
                ctx.assume(ctx.neg(ctx.any([T.same(ctx, n, '.'), T.same(ctx, n, '..')])))
                kids.append((n, mk(s) if isinstance(s, tuple) else Node(s)))
            d = Node('d', kids)
            for _, k in kids:
                k.parent = d
            return d
        self.root = mk(shape)

    def child(self, node, name):
        """The entry of that name (decides)."""
        if node.kind != 'd':
            return None
        if T.is_(self.ctx, name, '.'):
            return node
        if T.is_(self.ctx, name, '..'):
            return node.parent
        for n, k in node.children:
            if T.is_(self.ctx, n, name):
                return k
        return None

    def split(self, path):
        """Components; also symbolic characters can be slashes."""
        out = ['']
        for c in str(path):
            if T.is_(self.ctx, c, '/'):
                out.append('')
            else:
                out[-1] += c
        return out

    def find(self, path):
        comps = self.split(path)
        if comps == ['']:
            return None
        node = self.root
        for i, c in enumerate(comps):
            if c == '':
                if node.kind != 'd':
                    return None
                continue
            node = self.child(node, c)
            if node is None:
                return None
        return node

    # what os offers
    def listdir(self, path='.'):
        node = self.find(path)
        if node is None or node.kind == 'l':
            raise FileNotFoundError(2, 'No such file or directory')
        if node.kind == 'f':
            raise NotADirectoryError(20, 'Not a directory')
        return [n for n, _ in node.children]

    def lexists(self, path):
        return self.find(path) is not None

    def exists(self, path):
        n = self.find(path)
        return n is not None and n.kind != 'l'

    def isdir(self, path):
        n = self.find(path)
        return n is not None and n.kind == 'd'

    def isfile(self, path):
        n = self.find(path)
        return n is not None and n.kind == 'f'

    def walk(self, top):
        node = self.find(top)
        if node is None or node.kind != 'd':
            return
        dirs = [n for n, k in node.children if k.kind == 'd']
        yield top, dirs, [n for n, k in node.children if k.kind != 'd']
        for d in dirs:
            yield from self.walk((top if top.endswith('/') else top + '/') + d)

    def create(self, path, node=None):
        for n, k in (node or self.root).children:
            p = path + '/' + n
            if k.kind == 'd':
                os.mkdir(p)
                self.create(p, k)
            elif k.kind == 'l':
                os.symlink('nowhere', p)
            else:
                with open(p, 'w'):
                    pass

    def modules(self, ctx, *names):
        """The modules under test, seeing this tree as the current directory."""
        if ctx.symbolic:
            from symx import symstr
            o = symstr.OS(listdir=self.listdir, walk=self.walk)
            for f in ('lexists', 'exists', 'isdir', 'isfile'):
                o.path.__dict__[f] = getattr(self, f)
            return T.load(ctx, *names, os=o)
        import shutil
        import tempfile
        top = tempfile.mkdtemp()
        os.makedirs(top + '/a/b')
        old = os.getcwd()
        ctx.cleanups.append(lambda: (os.chdir(old), shutil.rmtree(top)))
        self.create(top + '/a/b')
        mods = T.load(ctx, *names)
        os.chdir(top + '/a/b')
        return mods


SHAPES = {
    'flat': ('f', 'f'),
    'mixed': ('f', ('f',)),
    'deep': ((('f',),),),
    'wide': (('f', 'l'), 'l'),
    'two': (('f',), ('f',)),
    'tree': (('f', ('f',)), 'f'),
}
NAMES = [('!', '.'), ('0', '~')]


def expected(ctx, tree, comps):
    """What the pattern stands for: [path]."""
    def hidden(n):
        return T.is_(ctx, n[0], '.')

    def join(a, b):
        return b if a == '' else (a if a.endswith('/') else a + '/') + b

    def below(text, node):
        for n, k in node.children:
            if not hidden(n):
                p = join(text, n)
                yield p, k
                if k.kind == 'd':
                    yield from below(p, k)
    states = [('', tree.root)]
    for i, c in enumerate(comps):
        new = []
        last = i == len(comps) - 1
        if c == '':
            # directories only
            new = [(join(t, ''), n) for t, n in states if n.kind == 'd' and t != '']
        elif len(c) == 2 and T.is_(ctx, c, '**'):
            for t, n in states:
                if n.kind == 'd':
                    if not (last and t == ''):
                        new.append((join(t, '') if t else t, n))
                    new += below(t, n)
        elif any(T.isin(ctx, x, '*?[{') for x in c):
            dots = hidden(c)
            items = globs.Parser(ctx, c).parse(0, len(c))
            for t, n in states:
                if n.kind == 'd':
                    for m, k in n.children:
                        if (dots or not hidden(m)) and ctx.is_true(globs.matches(ctx, items, m)):
                            new.append((join(t, m), k))
        else:
            for t, n in states:
                k = tree.child(n, c)
                if k is not None:
                    new.append((join(t, c), k))
        states = new
    return [t for t, _ in states]


def compare(ctx, got, want, what):
    got = [str(g) for g in got]
    rest = list(got)
    for w in want:
        hit = None
        for i, g in enumerate(rest):
            if len(g) == len(w) and T.is_(ctx, g, w):
                hit = i
                break
        ctx.check(hit is not None, 'everything that matches is found once', what + (got, want))
        ctx.reach('found')
        if hit is not None:
            del rest[hit]
    ctx.check(not rest, 'nothing else is found', what + (got, want))


def glob(ctx, shape='flat', namelen=(1, 1), pattern=(1, 2), alphabet=('**', '??', '//', '..', 'ac'), prefix='', suffix='',
         names=None, exclude=None, api='glob'):
    tree = Tree(ctx, SHAPES[shape], lambda i: ctx.text(
        'name%d' % i, namelen[0], namelen[1], tuple((ord(a), ord(b)) for a, b in names or NAMES)))
    g, p = tree.modules(ctx, 'fbuild.glob', 'fbuild.path')
    pat = prefix + ctx.text('pattern', pattern[0], pattern[1],
                            tuple(sorted((ord(a), ord(b)) for a, b in alphabet))) + suffix
    comps = tree.split(pat)
    # relative patterns without empty components, '..' and with at most one '**'
    ctx.assume(len(pat) > 0 and comps[0] != '' and '' not in comps[:-1])
    ctx.assume(not any(T.is_(ctx, c, '..') for c in comps))
    ctx.assume(sum(1 for c in comps if T.is_(ctx, c, '**')) <= 1)
    want = expected(ctx, tree, comps)
    if exclude is not None:
        ex = ctx.text('exclude', *exclude, tuple(sorted((ord(a), ord(b)) for a, b in alphabet)))
        items = globs.Parser(ctx, ex).parse(0, len(ex))
        want = [w for w in want if not ctx.is_true(globs.matches(ctx, items, w))]
    if api == 'glob':
        got = g.glob(pat)
    elif api == 'path':
        got = p.Path(pat).glob(**({} if exclude is None else dict(exclude=ex)))
    elif api == 'globall':
        got = p.Path.globall([pat], **({} if exclude is None else dict(exclude=[ex])))
    ctx.observe((pat, sorted_(ctx, got)))
    compare(ctx, got, want, (pat,))
    ctx.sample(pattern_len=len(pat), found=len(want))


def sorted_(ctx, got):
    return len(got)


def escape(ctx, shape='flat', namelen=(1, 3), names=None, other=1):
    """The escaped name of a file finds that file only."""
    tree = Tree(ctx, SHAPES[shape], lambda i: ctx.text(
        'name%d' % i, other if i else namelen[0], other if i else namelen[1],
        tuple(sorted((ord(a), ord(b)) for a, b in names or NAMES))))
    g, = tree.modules(ctx, 'fbuild.glob')
    for name, node in tree.root.children[:1]:
        e = g.escape(name)
        ctx.observe(e)
        compare(ctx, g.glob(e), [name], (name, e))


def find(ctx, shape='tree', namelen=(1, 1), pattern=(1, 2), alphabet=('**', '??', '..', 'ac')):
    tree = Tree(ctx, SHAPES[shape], lambda i: ctx.text(
        'name%d' % i, namelen[0], namelen[1], tuple((ord(a), ord(b)) for a, b in NAMES)))
    p, = tree.modules(ctx, 'fbuild.path')
    dirs = ctx.is_true(ctx.bool('include_dirs'))
    pat = None
    if ctx.is_true(ctx.bool('with_pattern')):
        pat = ctx.text('pattern', *pattern, tuple(sorted((ord(a), ord(b)) for a, b in alphabet)))
        items = globs.Parser(ctx, pat).parse(0, len(pat))
    want = []

    def walk(node, at):
        for n, k in node.children:
            if (k.kind != 'd' or dirs) and (pat is None or ctx.is_true(globs.matches(ctx, items, n))):
                want.append(at + '/' + n)
            if k.kind == 'd':
                walk(k, at + '/' + n)
    walk(tree.root, '.')
    got = list(p.Path('.').find(pat, include_dirs=dirs))
    ctx.observe((pat, len(got)))
    compare(ctx, got, want, (pat, dirs))
