"""Finding programs, and their versions."""
import os
import shutil
import sys

from symx.world import World
from . import text as T
from .texts import DB, Log


def load(ctx):
    pm, cm, bm = T.load(ctx, 'fbuild.path', 'fbuild.context', 'fbuild.builders', only=('fbuild.builders',))
    c = cm.Context.__new__(cm.Context)
    c.db, c.logger = DB(), Log()
    return pm, bm, c, sys.modules['fbuild']


def clear(n):
    if os.path.isdir(n):
        shutil.rmtree(n)
    elif os.path.exists(n):
        os.remove(n)


def find(ctx, names=('p', 'q'), dirs=2, given=True):
    """Directories that may have files or directories with the names."""
    w = World(ctx)
    pm, bm, c, fb = load(ctx)
    names = [ctx.pick('name%d' % i, [x, 'bin/' + x, 'full'][:3 if i == 0 else 2]) for i, x in enumerate(names)]
    names = [w.path('abs/p') if n == 'full' else n for n in names]
    if len(names) > 1 and ctx.is_true(ctx.bool('swapped')):
        names.reverse()
    paths = ['d%d' % i for i in range(dirs)]
    # (the current directory is the scratch directory)
    for n in ('p', 'q', 'bin'):
        ctx.cleanups.append(lambda n=n: clear(n))
        clear(n)
    tree = {}
    for d in ['', *paths]:
        for n in names:
            p = n if os.path.isabs(n) else os.path.join(w.path(d), n) if d else n
            if p not in tree:
                tree[p] = ctx.pick('%s in %s' % (os.path.relpath(n, w.dir) if os.path.isabs(n) else n, d or '.'), ['absent', 'file', 'directory'])
                if tree[p] == 'file':
                    os.makedirs(os.path.dirname(p) or '.', exist_ok=True)
                    open(p, 'w').close()
                elif tree[p] == 'directory':
                    os.makedirs(p)
    full = [w.path(d) for d in paths]
    old = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', old))
    os.environ['PATH'] = os.pathsep.join(full) if not given else w.path('elsewhere')
    want = None
    for n in names:
        for d in ['', *full]:
            p = os.path.join(d, n)
            if tree.get(p) == 'file' and want is None:
                want = p
    form = ctx.pick('form', ['list', 'tuple'])
    asked = list(names) if form == 'list' else tuple(names)
    what = ([os.path.relpath(n, w.dir) if os.path.isabs(n) else n for n in names], form, given)
    try:
        got = bm.find_program(c, asked, *([full] if given else []))
    except fb.ConfigFailed as e:
        ctx.check(want is None, 'a program that is there is found', what)
        ctx.check(isinstance(e, bm.MissingProgram) and all(n in str(e) for n in names), 'the error tells what was looked for', what)
        ctx.reach('missing')
        ctx.observe('missing')
        return
    ctx.check(want is not None, 'a program that is missing is an error', what)
    ctx.check(isinstance(got, pm.Path) and str(got) == want, 'the first name is found in the first directory', what)
    ctx.check(list(asked) == names, 'the names stay as they are')
    ctx.reach('found')
    ctx.observe(want.replace(w.dir, ''))
    ctx.sample(names=len(names))


NUMBERS = (0, 2, 10)


def version(ctx, n=3, parts=2, which=('is', 'least', 'most'), letters=False):
    """A program that tells any version."""
    pm, bm, c, fb = load(ctx)
    ranges = ((46, 46), (48, 57)) + (((97, 98),) if letters else ())
    text = ctx.text('version', 1, n, ranges)
    # the parts of the version
    found, part = [], ''
    for ch in [*text, '.']:
        if T.is_(ctx, ch, '.'):
            if part and all(ctx.is_true(T.within(ctx, x, '0', '9')) for x in part):
                v = 0
                for x in part:
                    v = v * 10 + digit(ctx, x)
                found.append(v)
            else:
                found.append(part)
            part = ''
        else:
            part += ch
    kw = {}
    for k in which:
        size = ctx.pick(k + '_size', range(1, parts + 1))
        if size:
            kw[k] = tuple(ctx.pick('%s%d' % (k, i), NUMBERS if not letters else (1, 'a')) for i in range(size))

    def compare(a, b):
        """-1, 0, 1, or None if they cannot be compared."""
        for x, y in zip(a, b):
            if isinstance(x, str) != isinstance(y, str):
                return None
            if isinstance(x, str):
                if len(x) == len(y) and T.is_(ctx, x, y):
                    continue
                return None
            if ctx.is_true(ctx.eq(x, y)):
                continue
            return -1 if ctx.is_true(x < y) else 1
        return (len(a) > len(b)) - (len(a) < len(b))
    good = True
    for k, req in kw.items():
        r = compare(found, req)
        if k == 'is':
            good = good and r == 0
        elif r is None:
            # (which is newer is not defined)
            ctx.assume(False)
        else:
            good = good and (r >= 0 if k == 'least' else r <= 0)
    asked = []

    def function():
        asked.append(1)
        return text
    names = dict(zip(('is', 'least', 'most'), ('requires_version', 'requires_at_least_version', 'requires_at_most_version')))
    try:
        bm.check_version(c, 'prog', function, **{names[k]: v for k, v in kw.items()})
        ok = True
    except fb.ConfigFailed:
        ok = False
    ctx.check(ok or not good, 'a version that is as required is accepted', (kw, text))
    ctx.check(good or not ok, 'another version is an error', (kw, text))
    ctx.reach('accepted' if ok else 'refused')
    ctx.observe((ok, sorted(kw)))
    ctx.sample(ok=ok)


def digit(ctx, c):
    if not ctx.symbolic:
        return ord(c) - 48
    from symx import symstr
    t = symstr.chars()
    return ctx.values.SymInt.make(ctx.values._z3(t.expr(c)) - 48) if symstr.is_sym(t.resolve(c)) else int(t.resolve(c))


def tells(ctx, tool='gcc', n=3, ranges=((32, 32), (40, 40), (46, 46), (48, 57), (97, 97))):
    """What a compiler says about itself."""
    pm, gm, cm = T.load(ctx, 'fbuild.path', 'fbuild.builders.c.gcc', 'fbuild.builders.c.clang',
                        only=('fbuild.builders.c.gcc', 'fbuild.builders.c.clang'))
    import types
    package = ctx.text('package', 1, n, ranges)
    number = ctx.text('number', 1, n, ((46, 46), (48, 57)))
    rest = ctx.pick('rest', ['', ' 20100110 (prerelease)', ' [gcc-4_3-branch revision 152973]'])
    if tool == 'gcc':
        name = ctx.pick('name', ['gcc', 'g++', 'avr-gcc-4.2'])
        said = name + ' (' + package + ') ' + number + rest
        cls = gm.Gcc
    else:
        vendor = ctx.pick('vendor', ['', 'Ubuntu ', 'a b '])
        said = vendor + 'clang version ' + number + ctx.pick('after', ['', ' (' + package + ')'])
        cls = cm.Clang

    class Said:
        def decode(self, *a):
            return said + ctx.pick('lines', ['\n', '\nmore 1.2 (3) 4.5\nclang version 6\n'])
    obj = cls.__new__(cls)
    obj.exe = pm.Path(tool)
    ran = []
    obj.ctx = types.SimpleNamespace(execute=lambda cmd, *a, **kw: (ran.append([str(x) for x in cmd]), (Said(), b''))[1])
    got = obj.version()
    ctx.check(ran == [[tool, '--version']], 'a compiler is asked for its version', ran)
    ctx.check(got is not None and len(got) == len(number), 'the version is the one the compiler tells', (tool, said))
    ctx.check(T.same(ctx, got, number), 'the version is the one the compiler tells', (tool, said))
    ctx.observe(said)
    ctx.sample(tool=tool)


def flags(ctx, n=3, ranges=((9, 10), (32, 32), (45, 45), (97, 97))):
    """The flags of a package."""
    pm, cm, km = T.load(ctx, 'fbuild.path', 'fbuild.context', 'fbuild.builders.pkg_config', only=('fbuild.builders.pkg_config',))
    text = ctx.text('printed', 0, n, ranges)
    want, word = [], ''
    for ch in [*text, ' ']:
        if T.isin(ctx, ch, ' \t\n'):
            want += [word] * bool(word)
            word = ''
        else:
            word += ch
    ran = []

    class Said:
        def decode(self, *a):
            return text
    obj = km.PkgConfig.__new__(km.PkgConfig)
    obj.exe, obj.pkg = pm.Path('pkg-config'), 'zlib'
    obj.ctx = cm.Context.__new__(cm.Context)
    obj.ctx.db = DB()
    obj.ctx.execute = lambda cmd, *a, **kw: (ran.append([str(x) for x in cmd]), (Said(), b''))[1]
    what = ctx.pick('what', ['cflags', 'libs'])
    more = ctx.pick('components', [(), ('a',)])
    got = getattr(obj, what)(more)
    ctx.check(len(ran) == 1 and sorted(ran[0]) == sorted(['pkg-config', 'zlib', '--' + what, *more]), 'the package is asked for', (what, ran))
    ctx.check(len(got) == len(want) and all(len(a) == len(b) for a, b in zip(got, want)), 'the flags are those that are printed', (what, got, want))
    ctx.check(ctx.all([T.same(ctx, a, b) for a, b in zip(got, want)]), 'the flags are those that are printed', (what, got, want))
    ctx.observe((what, len(want)))
    ctx.sample(what=what)


ASK = {
    'llvm': ('version', 'prefix', 'src_root', 'obj_root', 'bindir', 'includedir', 'libdir', 'cppflags', 'cflags', 'cxxflags', 'ldflags', 'libs', 'libnames', 'libfiles', 'components', 'targets_built', 'host_target', 'build_mode'),
    'sdl': ('version', 'prefix', 'exec_prefix', 'cflags', 'libs', 'static_libs'),
    'pkg_config': ('version', 'modversion'),
}


def told(ctx, tool='llvm', n=3, ranges=((9, 10), (32, 32), (45, 45), (97, 97))):
    """What llvm-config, sdl-config and pkg-config are asked, and told."""
    pm, cm, km = T.load(ctx, 'fbuild.path', 'fbuild.context', 'fbuild.builders.' + tool, only=('fbuild.builders.' + tool,))
    text = ctx.text('printed', 0, n, ranges)
    chars = list(text)
    while chars and T.isin(ctx, chars[0], ' \t\n'):
        del chars[0]
    while chars and T.isin(ctx, chars[-1], ' \t\n'):
        del chars[-1]
    want = ''.join(chars)
    ran = []

    class Said:
        def decode(self, *a):
            return text
    cls = {'llvm': 'LlvmConfig', 'sdl': 'SDLConfig', 'pkg_config': 'PkgConfig'}[tool]
    obj = getattr(km, cls).__new__(getattr(km, cls))
    obj.exe, obj.pkg = pm.Path('tool'), 'zlib'
    obj.ctx = cm.Context.__new__(cm.Context)
    obj.ctx.db = DB()
    obj.ctx.execute = lambda cmd, *a, **kw: (ran.append([str(x) for x in cmd]), (Said(), b''))[1]
    name = ctx.pick('what', ASK[tool])
    more = ()
    if tool == 'llvm' and name.endswith(('flags', 'libs', 'names', 'files')):
        more = ctx.pick('components', [(), ('a',), ('b', 'a')])
    got = getattr(obj, name)(*([more] if more else []))
    ctx.check(ran == [['tool'] + ['zlib'] * (tool == 'pkg_config') + ['--' + name.replace('_', '-'), *more]], 'the tool is asked for it', (tool, name, ran))
    ctx.check(lambda: len(got) == len(want) and T.same(ctx, got, want), 'it is what the tool tells', (tool, name))
    ctx.observe((tool, name, more, len(want)))
    ctx.sample(what=name)
