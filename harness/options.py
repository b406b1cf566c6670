"""Options that are given to builders and to their calls: what reaches the
compiler, the archiver and the linker."""
import os
import shutil
import sys
import types

from symx import fresh
from symx.world import World
from . import cbuild
from . import text as T

ANY = ('obj', 'lib', 'exe')
LINK = ('lib', 'exe')

# option: given to the builder, who gets it; given to the call, who gets it; how it looks
TABLE = {
    'macros': (lambda v: dict(macros=[v]), ANY, lambda v: dict(macros=[v]), ('obj',), lambda v: ['-D' + v]),
    'includes': (lambda v: dict(includes=[v]), ('obj',), lambda v: dict(includes=[v]), ('obj',), lambda v: ['-I' + v]),
    'warnings': (lambda v: dict(warnings=[v]), ('obj',), lambda v: dict(warnings=[v]), ('obj',), lambda v: ['-W' + v]),
    'compile flags': (lambda v: dict(compile_flags=['-f' + v]), ('obj',), lambda v: dict(cflags=['-f' + v]), ('obj',), lambda v: ['-f' + v]),
    'flags': (lambda v: dict(flags=['-f' + v]), ANY, None, (), lambda v: ['-f' + v]),
    'link flags': (lambda v: dict(link_flags=['-f' + v]), LINK, lambda v: dict(lflags=['-f' + v]), LINK, lambda v: ['-f' + v]),
    'exe link flags': (lambda v: dict(exe_link_flags=['-f' + v]), ('exe',), None, (), lambda v: ['-f' + v]),
    'lib link flags': (lambda v: dict(lib_link_flags=['-shared', '-f' + v]), ('lib',), None, (), lambda v: ['-f' + v]),
    'machine flags': (lambda v: dict(machine_flags=[v]), ANY, lambda v: dict(ckwargs=dict(machine_flags=[v])), ('obj',), lambda v: ['-m' + v]),
    'machine flags of links': (lambda v: dict(machine_flags=[v]), ANY, lambda v: dict(lkwargs=dict(machine_flags=[v])), LINK, lambda v: ['-m' + v]),
    'flags first': (lambda v: dict(pre_flags=['-f' + v]), ANY, None, (), lambda v: ['-f' + v]),
    'ldlibs': (lambda v: dict(ldlibs=['-l' + v]), LINK, lambda v: dict(ldlibs=['-l' + v]), LINK, lambda v: ['-l' + v]),
    'external libs': (lambda v: dict(external_libs=[v]), LINK, lambda v: dict(external_libs=[v]), LINK, lambda v: ['-l' + v]),
    'library paths': (lambda v: dict(libpaths=[v]), LINK, lambda v: dict(lkwargs=dict(libpaths=[v])), LINK, lambda v: ['-L' + v]),
    'archiver': (lambda v: dict(ar='ar' + v), (), None, (), lambda v: ['w/bin/ar' + v]),
    'arch': (lambda v: dict(arch=v), ANY, None, ANY, lambda v: ['-arch', v]),
    'platform options': (None, (), lambda v: dict(platform={'posix'}, platform_options=[({'posix'}, {'macros+': [v]}), ({'windows'}, {'macros+': ['no' + v]})]), ('obj',), lambda v: ['-D' + v]),
}
SWITCHES = {'debug': '-g', 'optimize': '-O2', 'profile': '-pg'}


class Tools(cbuild.Compiler):
    """The modelled tools, and the command everything was made with."""

    def __init__(self, *a, made, **kw):
        super().__init__(*a, **kw)
        self.made = made

    def run(self, cmd, cwd):
        tool = os.path.basename(cmd[0])
        if tool == 'uname':
            return b'Linux\n'
        if tool in ('gcc', 'g++', 'clang', 'clang++', 'ar', 'arA', 'arB'):
            if cmd[1:] == ['--version']:
                return b'clang version 9.1\n' if 'clang' in tool else b'gcc (Model) 9.1\n'
            if tool.startswith('ar'):
                out = next(a for a in cmd if a.endswith('.a'))
            elif '-o' in cmd:
                out = cmd[cmd.index('-o') + 1]
            else:
                out = os.path.join(str(cwd or '.'), 'a.out')
            self.made[out] = cmd
            self.log.append((tool, out))
            if '-MF' in cmd:
                with open(cmd[cmd.index('-MF') + 1], 'w') as f:
                    f.write('%s: %s\n' % (out, ' '.join(a for a in cmd if a.endswith(('.c', '.cc')))))
            self.put(out, 'made %d\n' % len(self.log))
        return b'5' if tool not in ('ranlib',) else b''


def builds(ctx, names=('macros',), module='fbuild.builders.c.gcc', kind='static', runs=2, levels=('builder', 'call'), lib_only=False):
    """What is built is made with the options given now, wherever they are given."""
    w = World(ctx)
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    suffix = '.cc' if 'cxx' in module else '.c'
    for t in ('gcc', 'g++', 'clang', 'clang++', 'ar', 'arA', 'arB', 'ranlib', 'uname'):
        w.write('bin/' + t, None)
    os.environ['PATH'] = 'w/bin'
    os.makedirs('w/src', exist_ok=True)
    for n in 'abc':
        with open('w/src/' + n + '.c', 'w') as f:
            f.write('x\n')
        w.touch('src/' + n + '.c', 5.0)
    name = ctx.pick('option', names) if len(names) > 1 else names[0]
    made, last = {}, None
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        kw = {'builder': {}, 'call': {}}
        given = {}
        for level in ('builder', 'call'):
            can = name in SWITCHES or name == 'arch' or TABLE[name][0 if level == 'builder' else 2]
            if level not in levels or not can:
                given[level] = None
                continue
            v = given[level] = ctx.pick('run%d_%s' % (r, level), [None, True, False] if name in SWITCHES else [None, 'A', 'B'])
            if v is None:
                continue
            if name in SWITCHES or name == 'arch':
                kw[level] = {name: v} if level == 'builder' else dict(ckwargs={name: v}, lkwargs={name: v} if kind == 'shared' else {})
            else:
                kw[level] = TABLE[name][0 if level == 'builder' else 2](v)
        proc = w.process('pickle')
        c = proc.ctx
        c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
        c.scheduler = cbuild.InlineScheduler()
        tools = c.execute = Tools(w, proc.fbuild.ExecutionError, made=made)
        os.makedirs('w/build/.tmp', exist_ok=True)
        gcc, temp = fresh.load(module, 'fbuild.temp')
        temp.set_default_tempdir('w/build/.tmp')
        proc.connect()
        builder = getattr(gcc, kind)(c, 'gcc', **kw['builder'])
        configured = len(tools.log)
        lib = builder.build_lib('l', ['w/src/b.c'], **kw['call'])
        ckw = {} if lib_only else dict(kw['call'])
        if not ckw.get('lkwargs') and (name in SWITCHES or name == 'arch') and given['call'] is not None:
            ckw['lkwargs'] = {name: given['call']}
        # (perhaps only another library uses it)
        used = builder.build_lib('m', ['w/src/c.c'], libs=[lib]) if lib_only == 'through another' else lib
        exe = builder.build_exe('prog', ['w/src/a.c'], libs=[used], **ckw)
        proc.close()
        shutil.rmtree('w/build/.tmp')
        what = (r, name, module, kind, [given['builder'], given['call']])
        outputs = {'lib': str(lib), 'exe': str(exe)}
        for x in ('lib', 'exe'):
            ctx.check(outputs[x] in made, 'everything is made', what)
        jobs = [('lib', made[outputs['lib']]), ('exe', made[outputs['exe']])]
        for x, cmd in list(jobs):
            objs = [a for a in cmd if a.endswith(('.o', '.os'))]
            ctx.check(len(objs) == 1, 'everything is made', (what, cmd))
            jobs += [('obj', made.get(o, [])) for o in objs]
            ctx.check(x == 'lib' or '-ll' in cmd, 'libraries are linked', (what, cmd))
        for x, cmd in jobs:
            archive = os.path.basename(cmd[0]).startswith('ar')
            if archive and name == 'archiver':
                ctx.check(cmd[0] == 'w/bin/ar' + (given['builder'] or ''), 'options reach the tools', (what, x, cmd))
            for v in ('A', 'B', 'noA', 'noB'):
                if name in SWITCHES:
                    break
                _, toB, _, toC, look = TABLE[name]
                expected = x in toB and given['builder'] == v and not archive or x in toC and given['call'] == v and (not archive or name == 'link flags')
                if name == 'arch':
                    # (there is only one)
                    expected = not archive and v == (given['call'] or given['builder'])
                if lib_only and x == 'exe' and given['call'] == v:
                    # (what a library needs is needed by what is linked with it)
                    ctx.check(all(a in cmd for a in look(v)), 'what libraries need is linked', (what, x, cmd))
                    continue
                # (what the linker makes of options of the compiler isn't said)
                if x == 'obj' or not archive:
                    have = all(a in cmd for a in look(v))
                    if expected:
                        ctx.check(have, 'options reach the tools', (what, x, cmd))
                        ctx.reach('reached ' + x)
                    elif x != 'obj' and name in ('includes', 'warnings') or x == 'obj' and name == 'library paths':
                        pass
                    else:
                        ctx.check(not have, 'nothing else reaches the tools', (what, x, cmd))
                elif expected:
                    ctx.check(all(a in cmd for a in look(v)), 'options reach the tools', (what, x, cmd))
            if name in SWITCHES and not archive:
                on = given['call'] if given['call'] is not None else given['builder']
                ctx.check((SWITCHES[name] in cmd) == bool(on), 'what is given to a call counts', (what, x, cmd))
                ctx.reach('switched on' if on else 'switched off')
            if x == 'obj':
                ctx.check('-c' in cmd, 'sources are compiled', (what, cmd))
                ctx.check(not any(a.startswith(('-l', '-L')) for a in cmd) or name == 'library paths', 'libraries are for the linker', (what, cmd))
            elif not archive:
                ctx.check('-c' not in cmd, 'objects are linked', (what, cmd))
                ctx.check(('-shared' in cmd) == (x == 'lib'), 'objects are linked', (what, cmd))
                objs = [i for i, a in enumerate(cmd) if a.endswith(('.o', '.os'))]
                ctx.check(all(i > objs[-1] for i, a in enumerate(cmd) if a.startswith('-l')), 'libraries come last', (what, cmd))
        done = tools.log[configured:]
        if last == given:
            ctx.check(not done, 'nothing is done if nothing has changed', (what, done))
            ctx.reach('nothing done')
        last = given
        ctx.reach('made')
        ctx.observe((what, len(done)))
    ctx.sample(runs=runs)


def command(ctx, lists=('macros', 'includes'), counts=(1, 1), switches=(), link=True, source_dirs=True, length=1):
    """One command, with values of options that are any strings."""
    pm, gm, fb = T.load(ctx, 'fbuild.path', 'fbuild.builders.c.gcc', 'fbuild', only=('fbuild.builders.c.gcc', 'fbuild.path'))
    LOOK = {'macros': '-D', 'includes': '-I', 'warnings': '-W', 'libpaths': '-L', 'machine_flags': '-m', 'external_libs': '-l', 'flags': '', 'ldlibs': '', 'pre_flags': ''}
    given = {'builder': {}, 'call': {}}
    for level, n in zip(('builder', 'call'), counts):
        for k in lists:
            given[level][k] = [('-' if LOOK[k] == '' else '') + ctx.text('%s_%s%d' % (level, k, i), length, length, ((97, 100),)) for i in range(n)]
    on = {}
    for s in switches:
        for level in ('builder', 'call'):
            given[level][s] = ctx.pick('%s_%s' % (level, s), [None, True, False])
        on[s] = given['call'][s] if given['call'][s] is not None else given['builder'][s]
    log = []

    class C:
        class db:
            add_external_dependencies_to_call = staticmethod(lambda **kw: None)

        def execute(self, cmd, *a, **kw):
            log.append(list(cmd))
            return (b'gcc (Model) 9.1\n', b'')

        class logger:
            check = passed = failed = staticmethod(lambda *a, **kw: None)
    cc = gm.Gcc.__new__(gm.Gcc)
    import contextlib

    @contextlib.contextmanager
    def tempfile(*a, **kw):
        yield pm.Path('t.c')
    gm.tempfile = tempfile
    cc.__init__(C(), pm.Path('gcc'), src_suffix='.c', **given['builder'])
    tried = len(log)
    for s in switches:
        if given['builder'][s]:
            ctx.check(any(SWITCHES[s] in cmd for cmd in log), 'flags are tried before they are used', s)
    srcs = ['s/x.c', 'y.c'] if link else ['s/x.c']
    args = dict(given['call'])
    if not link:
        args['pre_flags'] = ['-c', *args.get('pre_flags', ())]
    cc(srcs, 'out', include_source_dirs=source_dirs, **args)
    cmd = log[-1]
    ctx.check(len(log) == tried + 1, 'one command is run')
    what = (lists, counts, link, source_dirs, [given[x].get(s) for s in switches for x in ('builder', 'call')])
    ctx.check(str(cmd[0]) == 'gcc', 'the compiler is run', what)
    rest = [str(a) for a in cmd[1:]]
    i = rest.index('-o')
    ctx.check(rest[i + 1] == 'out', 'the output is named', what)
    del rest[i:i + 2]
    at = rest.index(srcs[0])
    ctx.check(rest[at:at + len(srcs)] == srcs, 'sources are given in their order', what)
    del rest[at:at + len(srcs)]
    if not link:
        rest.remove('-c')
    for s in SWITCHES:
        ctx.check(rest.count(SWITCHES[s]) == (1 if on.get(s) else 0), 'what is given to a call counts', what)
        if on.get(s):
            rest.remove(SWITCHES[s])
    if source_dirs:
        given['call'].setdefault('includes', [])
        given['call']['includes'] = given['call']['includes'] + ['s']
    for k in LOOK:
        mine = [a for a in rest if (a[:2] == LOOK[k] if LOOK[k] else a[:1] == '-' and len(a) == 1 + length)]
        if LOOK[k] == '' and k not in lists:
            continue
        vals = [LOOK[k] + x for level in ('builder', 'call') for x in given[level].get(k, [])]
        if not link and k in ('external_libs', 'ldlibs'):
            vals = []
        for v in vals:
            ctx.check(lambda: ctx.any([T.same(ctx, v, a) for a in mine]), 'options reach the tools', (what, k))
            ctx.reach('reached ' + k)
        for a in mine:
            ctx.check(lambda: ctx.any([T.same(ctx, v, a) for v in vals]), 'nothing else reaches the tools', (what, k))
        if k in ('flags', 'ldlibs'):
            first = []
            for v in vals:
                if not any(T.is_(ctx, v, x) for x in first):
                    first.append(v)
            got = []
            for a in mine:
                if not any(T.is_(ctx, a, x) for x in got):
                    got.append(a)
            ctx.check(lambda: len(got) == len(first) and ctx.all([T.same(ctx, x, y) for x, y in zip(first, got)]), 'flags keep their order', (what, k))
        for a in mine:
            rest.remove(a)
    ctx.check(not rest, 'nothing else reaches the tools', what)
    ctx.reach('run')
    ctx.observe((what, len(cmd)))
    ctx.sample(lists=lists)
