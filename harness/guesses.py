"""Guessing which compiler to use."""
import os
import re
import sys
import types

from symx import fresh
from symx.world import World
from . import cbuild
from .texts import DB, Log


def context(ctx):
    fresh.forget()
    cb, cm, pm = fresh.load('fbuild.builders.c', 'fbuild.context', 'fbuild.path')
    c = cm.Context.__new__(cm.Context)
    c.db, c.logger = DB(), Log()
    return cb, cm, pm, c


SAYS = {'gcc': 'gcc (GCC) 9.1.0\nCopyright (C) 2019 Free Software Foundation, Inc.\n', 'clang': 'Ubuntu clang version 18.1.3\n', 'icc': 'icc (ICC) 19.0\n', '': 'hello\n'}


def guess(ctx, entries=2, oses=('linux', 'windows'), options=True, exes=(None,), platforms=('set', 'frozenset', None), wanted=('both', 'static', 'shared')):
    """Any table of builders, some of which work."""
    w = World(ctx)
    old = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', old))
    w.write('bin/uname', None)
    os.environ['PATH'] = 'w/bin'
    cb, cm, pm, c = context(ctx)
    fb = sys.modules['fbuild']
    exe = ctx.pick('exe', exes)
    family = exe if exe in SAYS else None
    if exe and not family:
        family = ctx.pick('family', ['gcc', 'clang', 'icc', ''])

    def execute(cmd, *a, **kw):
        cmd = [str(x) for x in cmd]
        if cmd[0].endswith('uname'):
            return b'Linux\n', b''
        ctx.check(cmd == [exe, '--version'], 'only the compiler is run', cmd)
        return SAYS[family].encode(), b''
    c.execute = execute
    table, order = [], []
    mod = types.ModuleType('guessed')
    calls = []
    for i in range(entries):
        sub = {o for o in oses if ctx.is_true(ctx.bool('entry%d_needs_%s' % (i, o)))} | {ctx.pick('entry%d_compiler' % i, ['gcc', 'clang'])}
        works = {}
        for kind in ('static', 'shared'):
            def function(fctx, fexe, *, platform, i=i, kind=kind, works=works, **kw):
                calls.append((i, kind, fctx is c, fexe, set(platform), {k: list(v) for k, v in kw.items()}))
                for v in kw.values():
                    v.append('changed')
                works.setdefault(kind, ctx.is_true(ctx.bool('entry%d_%s_works' % (i, kind))))
                if not works[kind]:
                    raise fb.ConfigFailed('no')
                return '%s%d' % (kind, i)
            setattr(mod, '%s%d' % (kind, i), function)
        table.append((sub, 'guessed.static%d' % i, 'guessed.shared%d' % i))
        order.append((sub, works))
    sys.modules['guessed'] = mod
    ctx.cleanups.append(lambda: sys.modules.pop('guessed', None))
    g = cb.Guesser('x', {'gcc', 'clang'}, tuple(table))
    how = ctx.pick('platform', platforms)
    base = {'posix', 'linux'} if how is None or ctx.is_true(ctx.bool('is_linux')) else {'windows', 'win32'}
    given = None if how is None else set(base) if how == 'set' else frozenset(base)
    kw, static, shared, po = {}, {}, {}, []
    if options:
        if ctx.is_true(ctx.bool('given')):
            kw['flags'] = ['-x']
        if ctx.is_true(ctx.bool('given_static')):
            static['flags'] = ['-s']
        if ctx.is_true(ctx.bool('for_gcc')):
            po.append(({'gcc'}, {'flags+': ['-g']}))
        if ctx.is_true(ctx.bool('for_linux')):
            po.append(({'linux', '!clang'}, {'macros': ['L']}))
    before = repr((kw, static, shared, sorted(map(repr, po))))
    want = ctx.pick('wanted', wanted)
    args = dict(kw, platform=given)
    if po:
        args['platform_options'] = po
    if exe:
        args['exe'] = exe
    error = result = None
    try:
        if want == 'both':
            result = g(c, static=static, shared=shared, **args)
        elif want == 'static':
            result = g.static(c, static=static, **args)
        else:
            result = g.shared(c, shared=shared, **args)
    except fb.ConfigFailed as e:
        error = e
    kinds = ['static', 'shared'] if want == 'both' else [want]
    # ---- what it should be ----
    compilers = {'gcc', 'clang'} if not exe else {family} & {'gcc', 'clang'}
    expected, k = None, 0
    what = (want, how, exe, family, [(sorted(s), t) for s, t in order])
    got = {}
    for call in calls:
        ctx.check((call[0], call[1]) not in got, 'a builder is tried once', (what, call[0], call[1]))
        got[call[0], call[1]] = call
    if exe and not family:
        ctx.check(error is not None and not calls, 'an unknown compiler is an error', what)
        ctx.reach('unknown')
        return
    for i, (sub, works) in enumerate(order):
        usable = sub <= base | compilers and expected is None
        if not usable:
            ctx.check((i, 'static') not in got and (i, 'shared') not in got, 'only the builders of the platform are tried, in order', (what, i))
            continue
        for kind in kinds:
            if (i, kind) not in got:
                continue
            _, _, mine, fexe, platform, fkw = got[i, kind]
            wkw = {k: list(v) for k, v in dict(kw, **(static if kind == 'static' else shared)).items()}
            if po and {'gcc'} & sub and any(m == {'gcc'} for m, _ in po):
                wkw['flags'] = wkw.get('flags', []) + ['-g']
            if 'linux' in base and 'clang' not in sub and any('linux' in m for m, _ in po):
                wkw['macros'] = ['L']
            ctx.check(mine and fexe == exe, 'the builder gets what was given', (what, i, kind))
            ctx.check(base <= platform, 'the builder gets the platform', (what, i, kind))
            ctx.check(fkw == wkw, 'the builder gets the options of its platform and compiler', (what, i, kind, fkw, wkw))
        if not any((i, kind) in got and works.get(kind) is False for kind in kinds):
            ctx.check(all((i, kind) in got for kind in kinds), 'the first builders that work are used', (what, i))
            expected = i
    ctx.check(all(k in kinds for _, k in got), 'only what is asked for is tried', what)
    ctx.check((error is None) == (expected is not None), 'it is an error if no builder works', (what, expected))
    if expected is not None:
        if want == 'both':
            ctx.check(dict(result) == {k: '%s%d' % (k, expected) for k in kinds} and result.static == 'static%d' % expected and result.shared == 'shared%d' % expected,
                      'the first builders that work are used', (what, expected))
        else:
            ctx.check(result == '%s%d' % (want, expected), 'the first builders that work are used', (what, expected))
        ctx.reach('guessed')
    else:
        ctx.reach('none works')
    ctx.check(given is None or given == base, 'the platform that is given stays as it is', (what, sorted(given or ())))
    ctx.check(before == repr((kw, static, shared, sorted(map(repr, po)))), 'the options that are given stay as they are', what)
    ctx.observe((want, how, expected))
    ctx.sample(entries=entries)


FAMILY = {'gcc': 'gcc', 'clang': 'clang', 'intel': 'icc', 'msvc': 'msvc', 'gxx': 'g++', 'clangxx': 'clang++', 'intelxx': 'icpc'}
SPECIAL = {'darwin': {'darwin'}, 'avr': {'avr'}, 'iphone': {'iphone'}}
ARCHES = ('linux', 'windows', 'darwin', 'iphone', 'iphone-sim', 'freebsd', 'cygwin', 'mingw', 'avr')


def tables(ctx, lang='c'):
    """The builders that there are."""
    cb, cm, pm, c = context(ctx)
    fb = sys.modules['fbuild']
    mod, plat, fm = fresh.load('fbuild.builders.' + lang, 'fbuild.builders.platform', 'fbuild.functools')
    arch = ctx.pick('arch', ARCHES)
    platform = frozenset(plat.archmap.get(arch, {arch}))
    tried, works = [], {}

    def call(function, fctx, exe, **kw):
        tried.append(function)
        if function not in works:
            works[function] = ctx.is_true(ctx.bool('%s works' % function))
        if works[function]:
            return function
        raise fb.ConfigFailed('no')
    old = fm.call
    fm.call = call
    ctx.cleanups.append(lambda: setattr(fm, 'call', old))
    try:
        result = mod.guess(c, platform=platform)
    except fb.ConfigFailed:
        result = None
    families = []
    for name in tried:
        parts = name.split('.')
        family, special, function = parts[3], parts[4:-1], parts[-1]
        what = (arch, name)
        ctx.check(parts[:3] == ['fbuild', 'builders', lang] and family in FAMILY, 'builders of the language are used', what)
        ctx.check(callable(getattr(fresh.load('.'.join(parts[:-1]))[0], function, None)), 'the builders that are used exist', what)
        for s in special:
            ctx.check(SPECIAL.get(s, {s}) <= platform, 'builders of the platform are used', what)
        ctx.check('simulator' not in function or 'simulator' in platform, 'builders of the platform are used', what)
        if family == 'msvc':
            ctx.check('windows' in platform, 'builders of the platform are used', what)
        if family not in families:
            families.append(family)
            # the builder for the platform comes first
            have = [s for s in SPECIAL if SPECIAL[s] <= platform and os.path.exists(os.path.join(os.path.dirname(fb.__file__), 'builders', lang, family, s + '.py'))]
            have = [s for s in have if s != 'darwin' or 'iphone' not in have]
            if lang == 'c' or 'avr' not in have:
                ctx.check(special == have and ('simulator' in function) == ('simulator' in platform and 'iphone' in special), 'the builder for the platform comes first', (what, have))
    if result is not None:
        for kind in ('static', 'shared'):
            ctx.check(result[kind].split('.')[-1].startswith(kind), 'static builders are static and shared builders are shared', (arch, kind, result[kind]))
        ctx.check(result.static.split('.')[3:-1] == result.shared.split('.')[3:-1], 'both are of one compiler', (arch, result.static, result.shared))
        ctx.reach('some')
    else:
        want = {'gcc', 'clang', 'intel'} if lang == 'c' else {'gxx', 'clangxx', 'intelxx'}
        ctx.check(want <= set(families), 'every compiler is tried', (arch, families))
        ctx.reach('none')
    ctx.observe((arch, tried))
    ctx.sample(arch=arch)


TOOLS = {
    'fbuild.builders.c.gcc': ('gcc', 'gcc (GCC) 9.1.0'), 'fbuild.builders.c.clang': ('clang', 'clang version 9.1.0'), 'fbuild.builders.c.intel': ('icc', 'icc (ICC) 9.1.0'),
    'fbuild.builders.cxx.gxx': ('g++', 'g++ (GCC) 9.1.0'), 'fbuild.builders.cxx.clangxx': ('clang++', 'clang version 9.1.0'), 'fbuild.builders.cxx.intelxx': ('icpc', 'icpc (ICC) 9.1.0'),
    'fbuild.builders.c.gcc.darwin': ('gcc', 'gcc (GCC) 9.1.0'), 'fbuild.builders.c.clang.darwin': ('clang', 'clang version 9.1.0'),
    'fbuild.builders.cxx.gxx.darwin': ('g++', 'g++ (GCC) 9.1.0'), 'fbuild.builders.cxx.clangxx.darwin': ('clang++', 'clang version 9.1.0'),
    'fbuild.builders.c.gcc.avr': ('avr-gcc', 'avr-gcc (GCC) 9.1.0'), 'fbuild.builders.cxx.gxx.avr': ('avr-g++', 'avr-g++ (GCC) 9.1.0'),
}


class Tools(cbuild.Compiler):
    def run(self, cmd, cwd):
        tool = os.path.basename(cmd[0])
        self.ran.append([tool, *cmd[1:]])
        if tool == self.cc[0]:
            if cmd[1:] == ['--version']:
                return self.cc[1].encode() + b'\n'
            return self.gcc(cmd[1:], cwd)
        if tool in ('avr-ar', 'avr-ranlib'):
            cmd = [tool[4:], *cmd[1:]]
        return super().run(cmd, cwd)


def make(ctx, names=tuple(TOOLS), few=True):
    """The builders are made with a compiler that works."""
    w = World(ctx)
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    name = ctx.pick('builder', names)
    kind = ctx.pick('kind', ['static', 'shared'])
    for t in (TOOLS[name][0], 'ar', 'ranlib', 'uname', 'avr-ar', 'avr-ranlib'):
        w.write('bin/' + t, None)
    os.environ['PATH'] = 'w/bin'
    proc = w.process('pickle')
    c = proc.ctx
    c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
    c.scheduler = cbuild.InlineScheduler()
    tools = Tools(w, proc.fbuild.ExecutionError)
    tools.cc, tools.ran = TOOLS[name], []
    c.execute = tools
    os.makedirs('w/build/.tmp', exist_ok=True)
    mod, temp = fresh.load(name, 'fbuild.temp')
    temp.set_default_tempdir('w/build/.tmp')
    proc.connect()
    suffix = '.cc' if '.cxx.' in name else '.c'
    for i, n in enumerate(('a', 'b')):
        with open(w.path(n + suffix), 'w') as f:
            f.write('content %s\n' % n)
    kw = {'mmcu': 'm8'} if name.endswith('avr') else {}
    at = dict.fromkeys(('requires_version', 'requires_at_least_version', 'requires_at_most_version'))
    for k in [ctx.pick('requires', [*at])] if few else at:
        at[k] = ctx.pick(k, [None, (9, 0), (9, 1, 0), (10,)])
    good = at['requires_version'] in (None, (9, 1, 0)) and at['requires_at_least_version'] != (10,) and at['requires_at_most_version'] != (9, 0)
    what = (name, kind, sorted(at.items()))
    try:
        builder = getattr(mod, kind)(c, platform={'posix', 'bsd', 'darwin'} if 'darwin' in name else {'posix', 'linux'}, **kw, **{k: v for k, v in at.items() if v})
    except proc.fbuild.ConfigFailed as e:
        ctx.check(not good, 'a builder can be made if its compiler works', (what, str(e)))
        ctx.reach('refused')
        proc.close()
        return
    ctx.check(good, 'a builder is only made if its compiler has the version that is required', what)
    lib = builder.build_lib('l', ['w/b' + suffix])
    exe = builder.build_exe('prog', ['w/a' + suffix], libs=[lib])
    proc.close()
    ctx.check(str(lib) == 'w/build/libl.' + ('a' if kind == 'static' else 'dylib' if 'darwin' in name else 'so'), 'static builders build static libraries, shared builders shared ones', (what, str(lib)))
    text = tools.get(str(lib))
    ctx.check(text.startswith('<member' if kind == 'static' else 'LIB'), 'static builders build static libraries, shared builders shared ones', what)
    text = tools.get(str(exe))
    ctx.check(re.findall('content .', text) == ['content a', 'content b'], 'a builder builds what it is given', (what, text))
    ctx.check({r[0] for r in tools.ran} <= {tools.cc[0], 'ar', 'ranlib', 'avr-ar', 'avr-ranlib', 'uname', 'temp', 'tempexe'}, 'only the tools of the builder are run', (what, sorted({r[0] for r in tools.ran})))
    if name.endswith('avr'):
        ctx.check(all('-mmcu=m8' in r for r in tools.ran if r[0] == tools.cc[0] and r[1:] != ['--version']), 'the processor is the one that is given', what)
        ctx.check(not any(r[0] in ('ar', 'ranlib', 'temp', 'tempexe') for r in tools.ran), 'a cross compiler uses its own tools and runs nothing it builds', (what, sorted({r[0] for r in tools.ran})))
    ctx.reach('made')
    ctx.observe((name, kind))
    ctx.sample(name=name, kind=kind)
