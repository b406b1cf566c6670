"""Files made from templates, and copied files."""
import os
import re
import shutil
import stat
import sys
import types

from symx import core, fresh, world
from symx.world import World, tok, untok
from . import text as T


class Log:
    def __getattr__(self, k):
        return lambda *a, **kw: None


class File:
    """A text file whose content may have symbolic characters."""

    def __init__(self, f):
        self._f = f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()

    def _lines(self):
        from symx import symstr
        s, out, line = self._f.read(), [], ''
        for c in s:
            line += c
            if symstr.eq(c, '\n'):
                out.append(line)
                line = ''
        return out + [line] * bool(line)

    def __iter__(self):
        return iter(self._lines())

    def readlines(self):
        return self._lines()

    def __getattr__(self, k):
        if k in ('readline', '__next__'):
            raise core.Inconclusive('file.' + k)
        return getattr(self._f, k)


def symopen(file, mode='r', *a, **kw):
    f = open(file, mode, *a, **kw)
    return File(f) if 'b' not in mode and core.CURRENT is not None and core.CURRENT.symbolic else f


class DB:
    def call(self, function, ctx, *args, **kwargs):
        return function(ctx, *args, **kwargs), (), ()


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)


def get(path):
    with open(path, encoding='utf-8') as f:
        return f.read()


# -- what the files should say ---------------------------------------------------

class Unknown(Exception):
    pass


def word(ctx, c):
    return ctx.is_true(ctx.any([T.within(ctx, c, a, b) for a, b in ('az', 'AZ', '09', '__')]))


def shown(v):
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        return ' '.join(str(x) for x in v)
    return str(v)


def lookup(ctx, patterns, name):
    for k, v in patterns.items():
        if len(k) == len(name) and T.is_(ctx, k, name):
            return v
    raise Unknown()


def replaced(ctx, s, old, new):
    out, i = '', 0
    while i < len(s):
        if i + len(old) <= len(s) and T.is_(ctx, s[i:i + len(old)], old):
            out += new
            i += len(old)
        else:
            out += s[i]
            i += 1
    return out


def marks(ctx, s, patterns, undef=False):
    """@name@ (and #undef name) replaced."""
    out, i, missing = '', 0, False
    while i < len(s):
        if T.is_(ctx, s[i], '@'):
            j = i + 1
            while j < len(s) and word(ctx, s[j]):
                j += 1
            if i + 1 < j < len(s) and T.is_(ctx, s[j], '@'):
                out += shown(lookup(ctx, patterns, s[i + 1:j]))
                i = j + 1
                continue
        elif undef and (i == 0 or T.is_(ctx, s[i - 1], '\n')) and i + 7 <= len(s) and T.is_(ctx, s[i:i + 7], '#undef '):
            j = i + 7
            while j < len(s) and T.is_(ctx, s[j], ' '):
                j += 1
            k = j
            while k < len(s) and word(ctx, s[k]):
                k += 1
            if k > j and (k == len(s) or T.is_(ctx, s[k], '\n')):
                try:
                    v = lookup(ctx, patterns, s[j:k])
                except Unknown:
                    missing = True
                    v = None
                if v is True:
                    v = 1
                v = shown(v) if v is not None and v is not False and v != 0 else ''
                out += '#define ' + s[j:k] + ' ' + v if v else '/* #undef ' + s[j:k] + ' */'
                i = k
                continue
        out += s[i]
        i += 1
    if missing:
        raise Unknown()
    return out


def fields(ctx, s, patterns):
    """{name} replaced, {{ and }} for braces."""
    out, i = '', 0
    while i < len(s):
        c = s[i]
        if T.is_(ctx, c, '{'):
            if i + 1 < len(s) and T.is_(ctx, s[i + 1], '{'):
                out += '{'
                i += 2
                continue
            j = i + 1
            while j < len(s) and not T.is_(ctx, s[j], '}'):
                if T.is_(ctx, s[j], '{'):
                    raise Unknown()
                j += 1
            if j == len(s):
                raise Unknown()
            out += shown(lookup(ctx, patterns, s[i + 1:j]))
            i = j + 1
        elif T.is_(ctx, c, '}'):
            if not (i + 1 < len(s) and T.is_(ctx, s[i + 1], '}')):
                raise Unknown()
            out += '}'
            i += 2
        else:
            out += c
            i += 1
    return out


def runs(ctx, s, c, new, starts=False, lines=True):
    """c+ replaced (starts: only where it is first in its line, or (not lines) in the text)."""
    out, i = '', 0
    while i < len(s):
        here = T.is_(ctx, s[i], c) and (not starts or i == 0 or (lines and T.is_(ctx, s[i - 1], '\n')))
        if here:
            while i < len(s) and T.is_(ctx, s[i], c):
                i += 1
            out += new
        else:
            out += s[i]
            i += 1
    return out


def ends(ctx, s, c, new):
    """c replaced where it is last in its line."""
    return ''.join(new if T.is_(ctx, x, c) and (i + 1 == len(s) or T.is_(ctx, s[i + 1], '\n')) else x for i, x in enumerate(s))


def pairs(ctx, s, new=lambda a: '<' + a + '>'):
    """([ab])c replaced by <\\1>."""
    out, i = '', 0
    while i < len(s):
        if i + 1 < len(s) and T.isin(ctx, s[i], 'ab') and T.is_(ctx, s[i + 1], 'c'):
            out += new(s[i])
            i += 2
        else:
            out += s[i]
            i += 1
    return out


REGEX = {
    'runs': ([('a+', 'x')], lambda ctx, s: runs(ctx, s, 'a', 'x')),
    'starts': ([(r'^a+', 'x\\\\y')], lambda ctx, s: runs(ctx, s, 'a', 'x\\y', True)),
    'start': ([(r'^a+', 'x', 0)], lambda ctx, s: runs(ctx, s, 'a', 'x', True, False)),
    'ends': ([[r'a$', '']], lambda ctx, s: ends(ctx, s, 'a', '')),
    'groups': ([('([ab])c', r'<\1>'), ('b', 'cc')], lambda ctx, s: replaced(ctx, pairs(ctx, s), 'b', 'cc')),
    'two': ([('a', 'b'), ('b+', 'a', re.M)], lambda ctx, s: runs(ctx, replaced(ctx, s, 'a', 'b'), 'b', 'a')),
}
VALUES = {'str': 'x y', 'empty': '', 'int': 7, 'zero': 0, 'true': True, 'false': False, 'list': ['x', 2], 'none': [], 'mark': '@ab@', 'mark a': '@a@', 'brace': '{ab}', 'brace a': '{a}', 'back': '\\1', 'tuple': ('p',)}


def generate(ctx, kind, n=3, ranges=((97, 98),), what=None, pieces=('',), values=('str',), depth=''):
    """A template of any characters."""
    w = World(ctx)
    if ctx.symbolic:
        old = dict(fresh.inject)
        fresh.inject['open'] = symopen
        ctx.cleanups.append(lambda: (fresh.inject.clear(), fresh.inject.update(old)))
    tm, cm, pm = T.load(ctx, 'fbuild.builders.text', 'fbuild.context', 'fbuild.path', only=('fbuild.builders.text',))
    fb = sys.modules['fbuild']
    c = cm.Context.__new__(cm.Context)
    c.db, c.logger = DB(), Log()
    c.options = types.SimpleNamespace(buildroot=pm.Path(w.path('build')))
    code = ''
    for i in range(ctx.pick('n', range(n + 1))):
        p = ctx.pick("piece%d" % i, pieces)
        code += p or ctx.text('c%d' % i, 1, 1, ranges)
    kw = {}
    if kind == 'substitute':
        if what == 'two':
            patterns = {'a': 'bb', 'b': 'c'}
        else:
            patterns = {ctx.text('old', 1, 2, ranges): ctx.text('new', 0, 2, ranges)}
        make = tm.substitute
        def want():
            s = code
            for a, b in patterns.items():
                s = replaced(ctx, s, a, b)
            return s
    elif kind == 'regex':
        patterns, f = REGEX[what]
        make = tm.regex_substitute
        want = lambda: f(ctx, code)
    else:
        v = ctx.pick('a_value', values)
        patterns = {'a': VALUES[v], 'ab': 'AB' if what != 'both' else VALUES[ctx.pick('ab_value', values)]}
        make = {'format': tm.format_substitute, 'file': tm.autoconf_config_file, 'header': tm.autoconf_config_header}[kind]
        want = lambda: fields(ctx, code, patterns) if kind == 'format' else marks(ctx, code, patterns, kind == 'header')
    src, dst = w.path('t.in'), depth + 'out.txt'
    root = w.path('build')
    if ctx.is_true(ctx.bool('other_root')):
        root = w.path('other')
        kw['buildroot'] = pm.Path(root)
    put(src, code)
    before = ctx.pick('before', ['absent', 'old'])
    if before == 'old':
        put(os.path.join(root, dst), 'old')
    detail = (kind, what, before, kw and 'other root')
    try:
        expected = want()
    except Unknown:
        expected = None
    try:
        got, error = make(c, dst, src, patterns, **kw), None
    except (KeyError, LookupError, ValueError, fb.Error) as e:
        got, error = None, e
    if expected is None:
        ctx.check(error is not None, 'a placeholder without a value is an error', detail)
        if before == 'old':
            ctx.check(get(os.path.join(root, dst)) == 'old', 'a failure leaves the file as it was', detail)
        else:
            ctx.check(not os.path.exists(os.path.join(root, dst)), 'a failure leaves the file as it was', detail)
        ctx.reach('missing')
    else:
        ctx.check(error is None, 'known placeholders are replaced', (detail, error and type(error).__name__))
        ctx.check(str(got) == os.path.join(root, dst) and isinstance(got, pm.Path), 'the file is in the build root', (detail, got and str(got)))
        text = get(os.path.join(root, dst))
        ctx.check(len(text) == len(expected), 'the file says what the template says', (detail, len(text), len(expected)))
        ctx.check(T.same(ctx, text, expected), 'the file says what the template says', detail)
        ctx.reach('made')
    ctx.check(T.same(ctx, get(src), code), 'templates stay as they are', detail)
    ctx.observe((detail, error is not None))
    ctx.sample(kind=kind, what=what)


# -- with the database ------------------------------------------------------------

def process(w, engine):
    proc = w.process(engine)
    proc.ctx.options = types.SimpleNamespace(buildroot=proc.context_mod.Path(w.path('build')))
    proc.connect()
    return proc


TEMPLATE = {'substitute': ('A', 'A.'), 'regex': ('A', 'A.'), 'format': ('{a}', '{a}{a}'), 'file': ('@a@', '@a@.'), 'header': ('@a@\n#undef a\n', '@a@.')}


def again(ctx, kind, engine='pickle', rounds=2):
    """The file is what it would be if it were made now, and it is only made
    if something has changed."""
    w = World(ctx)
    last = None
    dst = w.path('build/out.txt')
    for r in range(rounds):
        w.set_now(10.0 * (r + 1))
        if last and ctx.is_true(ctx.bool('same%d' % r)):
            c, form = last[0], last[1]
        else:
            c = ctx.atom('c%d' % r, 0, 99999)
            form = ctx.pick('form%d' % r, [0, 1])
            put(w.path('t.in'), TEMPLATE[kind][form] + '|' + tok(c))
            w.touch('t.in', w.now)
        value = ctx.pick('value%d' % r, ['x', 'yy'])
        lost = bool(last) and ctx.is_true(ctx.bool('lost%d' % r))
        if lost:
            os.remove(dst)
        elif last:
            world._real.utime(dst, ns=(10 ** 18, 10 ** 18))
        proc = process(w, engine)
        tm, = fresh.load('fbuild.builders.text')
        f = {'substitute': tm.substitute, 'regex': tm.regex_substitute, 'format': tm.format_substitute, 'file': tm.autoconf_config_file,
             'header': tm.autoconf_config_header}[kind]
        patterns = {'substitute': {'A': value}, 'regex': [('A', value)]}.get(kind, {'a': value})
        got = f(proc.ctx, 'out.txt', proc.context_mod.Path(w.path('t.in')), patterns)
        proc.close()
        what = (kind, form, value, lost)
        ctx.check(str(got) == dst and os.path.isfile(dst), 'the file is there after every build', what)
        text = get(dst)
        want = TEMPLATE[kind][form]
        for x in ('A', '@a@', '{a}'):
            want = want.replace(x, value)
        want = want.replace('#undef a', '#define a ' + value)
        head, _, t = text.partition('|')
        ctx.check(head == want, 'the file says what the template says now', (what, text, want))
        ctx.check(ctx.eq(untok(t), c), 'the file says what the template says now', what)
        made = world._real.stat(dst).st_mtime_ns != 10 ** 18
        if last and not made:
            ctx.reach('kept')
        if last and last[1:] == (form, value) and not lost:
            ctx.check(lambda: ctx.any([not made, ctx.neg(ctx.eq(c, last[0]))]), 'a file is only made again if something has changed', what)
        last = (c, form, value)
        ctx.observe((what, made))
    ctx.sample(kind=kind, rounds=rounds)


def copies(ctx, engine='pickle', rounds=2, where=('o.txt', 'd/', 'd', 'd/o.txt', 'x/y/o.txt'), move=False):
    """A copied file is what its source is now."""
    w = World(ctx)
    last = None
    dst = ctx.pick('dst', where)
    for d in ('build/d', 'build'):
        if ctx.is_true(ctx.bool('has_' + d)):
            os.makedirs(w.path(d), exist_ok=True)
    target = w.path('build/' + dst)
    if dst.endswith('/') or os.path.isdir(target):
        target = os.path.join(target, 's.txt')
    full = ctx.is_true(ctx.bool('full'))
    for r in range(rounds):
        w.set_now(10.0 * (r + 1))
        if last and not move and ctx.is_true(ctx.bool('same%d' % r)):
            c = last[0]
        else:
            c = ctx.atom('c%d' % r, 0, 99999)
            w.write('src/s.txt', c, w.now)
            os.chmod(w.path('src/s.txt'), 0o640)
        lost = bool(last) and ctx.is_true(ctx.bool('lost%d' % r))
        if lost:
            os.remove(target)
        elif last:
            world._real.utime(target, ns=(10 ** 18, 10 ** 18))
        proc = process(w, engine)
        fm, = fresh.load('fbuild.builders.file')
        P = proc.context_mod.Path
        got = (fm.move if move else fm.copy)(proc.ctx, P(w.path('src/s.txt')), w.path('build/' + dst) if full else dst)
        proc.close()
        what = (dst, lost, full)
        ctx.check(os.path.normpath(str(got)) == target and os.path.isfile(target), 'the copy is there after every build', (what, str(got)))
        ctx.check(ctx.eq(w.read(target), c), 'a copy has the content of its source', what)
        ctx.check(stat.S_IMODE(world._real.stat(target).st_mode) == 0o640, 'a copy has the permissions of its source', what)
        if move:
            ctx.check(not os.path.exists(w.path('src/s.txt')), 'a file that is moved is gone', what)
            ctx.reach('moved')
        else:
            ctx.check(ctx.eq(w.read('src/s.txt'), c), 'a copied file stays', what)
            made = world._real.stat(target).st_mtime_ns != 10 ** 18
            if last and not made:
                ctx.reach('kept')
            if last and not lost:
                ctx.check(lambda: ctx.any([not made, ctx.neg(ctx.eq(c, last[0]))]), 'a file is only made again if something has changed', what)
        here = sorted(os.path.relpath(os.path.join(d, f), w.dir) for d, _, fs in os.walk(w.path('build')) for f in fs)
        ctx.check(here == [os.path.relpath(target, w.dir)], 'nothing else is made', (what, here))
        last = (c,)
        ctx.observe((what, r))
    ctx.sample(rounds=rounds)


TREE = ('a.c', 'b.h', 'd/a.c', 'd/e/f.c', 'd.c/x.h', 'E/')
RENAME = {
    'all': (r'^.*$', r'\g<0>', lambda n: n),
    'c': (r'^(.*)\.c$', r'p-\1.cc', lambda n: 'p-' + n[:-2] + '.cc' if n.endswith('.c') else None),
    'flat': (r'^(?:.*/)?([^/]*\.h)$', r'inc/\1', lambda n: 'inc/' + n.split('/')[-1] if n.endswith('.h') else None),
    'part': (r'e/', r'', lambda n: n.replace('e/', '') if 'e/' in n else None),
    'd': (r'^d', r'q', lambda n: 'q' + n[1:] if n.startswith('d') else None),
}
EXCLUDE = {None: None, 'h': (r'\.h$', lambda n: n.endswith('.h')), 'd': (r'/d', lambda n: '/d' in '/' + n), 'a': (r'a\.c', lambda n: 'a.c' in n)}


def trees(ctx, rename, engine='pickle', rounds=2, tree=TREE, exclude=(None,), dirs=(None,), slash=('',), inside=False):
    """Copying what matches in a directory."""
    w = World(ctx)
    last = None
    x = ctx.pick('exclude', exclude)
    include = ctx.pick('include_dirs', dirs)
    srcdir = 'src' + ctx.pick('slash', slash)
    there = [t for t in tree if ctx.is_true(ctx.bool('has_' + t))]
    dstdir = 'out'
    root = w.path('src/build') if inside else w.path('build')
    pattern, repl, name = RENAME[rename]
    os.makedirs(w.path('src'))
    contents = {}
    for r in range(rounds):
        w.set_now(10.0 * (r + 1))
        changed = ctx.pick('changed%d' % r, ['none'] + [t for t in there if not t.endswith('/')]) if r else 'all'
        for t in there:
            if t.endswith('/'):
                os.makedirs(w.path('src/' + t), exist_ok=True)
            elif changed in ('all', t):
                contents[t] = ctx.atom('c%d_%s' % (r, t), 0, 99999)
                w.write('src/' + t, contents[t], w.now)
        names = set(there)
        for t in there:
            while os.path.dirname(t.rstrip('/')):
                t = os.path.dirname(t.rstrip('/'))
                names.add(t + '/')
        files, made = {}, set()
        for t in sorted(names):
            n = t.rstrip('/')
            if x is not None and EXCLUDE[x][1](n):
                continue
            to = name(n)
            if to is None:
                continue
            if t.endswith('/'):
                if include is not False:
                    made.add(to)
            else:
                files[to] = t
        # (what is put into one place by two rules is not defined)
        clash = len([t for t in names if not t.endswith('/') and not (x is not None and EXCLUDE[x][1](t)) and name(t) is not None]) != len(files)
        ctx.assume(not clash and not any(f == m or f.startswith(f2 + '/') for f in files for f2 in files if f2 != f for m in [None]))
        ctx.assume(not any(m == f or m.startswith(f + '/') for m in made for f in files))
        lost = bool(r) and bool(files) and ctx.is_true(ctx.bool('lost%d' % r))
        if lost:
            os.remove(os.path.join(root, 'out', sorted(files)[0]))
        for f in sorted(files) if r else ():
            if not lost or f != sorted(files)[0]:
                world._real.utime(os.path.join(root, 'out', f), ns=(10 ** 18, 10 ** 18))
        proc = w.process(engine)
        P = proc.context_mod.Path
        proc.ctx.options = types.SimpleNamespace(buildroot=P(root))
        proc.connect()
        fm, = fresh.load('fbuild.builders.file')
        kw = {} if include is None else {'include_dirs': include}
        if x is not None:
            kw['exclude_pattern'] = EXCLUDE[x][0]
        error = None
        try:
            got = fm.copy_regex(proc.ctx, srcdir=w.path(srcdir), dstdir=dstdir, src_pattern=pattern, dst_pattern=repl, **kw)
        except OSError as e:
            error = e
        proc.close()
        what = (rename, there, x, include, srcdir, changed, lost)
        ctx.check(error is None, 'what matches is copied', (what, error and repr(error)))
        here = sorted(os.path.relpath(os.path.join(d, f), os.path.join(root, 'out')) for d, _, fs in os.walk(os.path.join(root, 'out')) for f in fs)
        ctx.check(here == sorted(files), 'exactly what matches is copied', (what, here, sorted(files)))
        ctx.check(all(os.path.isdir(os.path.join(root, 'out', m)) for m in made), 'directories that match are made', (what, sorted(made)))
        ctx.check(sorted({os.path.normpath(str(g)) for g in got if not os.path.isdir(g)}) == sorted(os.path.join(root, 'out', f) for f in files), 'the copies are returned', (what, [str(g) for g in got]))
        for f, t in files.items():
            p = os.path.join(root, 'out', f)
            ctx.check(ctx.eq(w.read(p), contents[t]), 'a copy has the content of its source', (what, f))
        for t in there:
            if not t.endswith('/'):
                ctx.check(ctx.eq(w.read('src/' + t), contents[t]), 'a copied file stays', what)
        again = any(world._real.stat(os.path.join(root, 'out', f)).st_mtime_ns != 10 ** 18 for f in files)
        if r and files and not lost and not (changed in files.values()):
            ctx.check(not again, 'a file is only made again if something has changed', what)
            ctx.reach('kept')
        ctx.reach('copied' if files else 'nothing matches')
        ctx.observe((what, again))
    ctx.sample(rename=rename)
