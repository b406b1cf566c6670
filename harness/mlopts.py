"""Options that are given to OCaml builders and to their calls: what reaches
the compilers, the linkers and ocamldep."""
import os
import shutil
import types

from symx import fresh
from symx.world import World
from .ocbuild import Inline, Tools as Base

ALL = ('obj', 'lib', 'exe')

# option: given to the builder, who gets it; given to the call, who gets it; how it looks
# (dep: ocamldep; intf: the compiler of interfaces, if it's another one than that of objects; who isn't named doesn't get it, unless they are in ANY)
TABLE = {
    'includes': (lambda v: dict(includes=['w/inc' + v]), ALL + ('intf',), lambda v: dict(includes=['w/inc' + v]), ALL + ('intf',), lambda v: ['-I', 'w/inc' + v]),
    'flags': (lambda v: dict(flags=['-f' + v]), ALL, lambda v: dict(flags=['-f' + v]), ALL + ('intf',), lambda v: ['-f' + v]),
    'compile flags': (None, (), lambda v: dict(cflags=['-f' + v]), ('obj', 'intf'), lambda v: ['-f' + v]),
    'link flags': (None, (), lambda v: dict(lflags=['-f' + v]), ('lib', 'exe'), lambda v: ['-f' + v]),
    'flags first': (lambda v: dict(pre_flags=['-f' + v]), ALL, lambda v: dict(pre_flags=['-f' + v]), ALL + ('intf',), lambda v: ['-f' + v]),
    'c compiler': (lambda v: dict(cc='cc' + v), ALL, lambda v: dict(cc='cc' + v), ALL + ('intf',), lambda v: ['-cc', 'cc' + v]),
    'c libraries': (lambda v: dict(c_libs=[v]), ('lib', 'exe'), lambda v: dict(c_libs=[v]), ('lib', 'exe'), lambda v: ['-cclib', '-l' + v]),
    'libraries': (lambda v: dict(libs=['x' + v]), ('exe',), lambda v: dict(external_libs=['x' + v]), ('exe',), lambda v: ['x' + v]),
    'preprocessor': (None, (), lambda v: dict(ckwargs=dict(preprocessor='pp' + v)), ('obj', 'dep', 'intf'), lambda v: ['-pp', 'pp' + v]),
    'ocamldep flags': (None, (), lambda v: dict(ckwargs=dict(ocamldep_flags=['-f' + v])), ('dep',), lambda v: ['-f' + v]),
    'compile arguments': (None, (), lambda v: dict(ckwargs=dict(cc='cc' + v)), ('obj', 'intf'), lambda v: ['-cc', 'cc' + v]),
    'link arguments': (None, (), lambda v: dict(lkwargs=dict(cc='cc' + v)), ('lib', 'exe'), lambda v: ['-cc', 'cc' + v]),
    'custom': (None, (), lambda v: dict(custom=v == 'A'), ('lib', 'exe'), lambda v: ['-custom'] if v == 'A' else ['?']),
    'optimize flags': (lambda v: dict(optimize=True, optimize_flags=['-f' + v]), ALL, None, (), lambda v: ['-f' + v]),
    'debug flags': (lambda v: dict(debug=True, debug_flags=['-f' + v]), ALL, None, (), lambda v: ['-f' + v]),
    # (ocamlopt)
    'profile flags': (lambda v: dict(profile=True, profile_flags=['-f' + v]), ALL, lambda v: dict(profile=True, profile_flags=['-f' + v]), ALL, lambda v: ['-f' + v]),
    # (ocamlcp)
    'profiled': (lambda v: dict(profile_flags=['-f' + v]), ALL, lambda v: dict(profile_flags=['-f' + v]), ALL, lambda v: ['-f' + v]),
    # (ocamlfind)
    'packages': (lambda v: dict(packages=[v]), ALL + ('dep', 'intf'), lambda v: dict(packages=[v]), ALL + ('dep', 'intf'), lambda v: ['-package', v]),
    'syntaxes': (lambda v: dict(syntaxes=[v]), ('obj', 'dep', 'intf'), lambda v: dict(syntaxes=[v]), ('obj', 'dep', 'intf'), lambda v: ['-syntax', v]),
    'ppopts': (lambda v: dict(ppopts=[v]), ('obj', 'dep', 'intf'), lambda v: dict(ppopts=[v]), ('obj', 'dep', 'intf'), lambda v: ['-ppopt', v]),
}
# what may get them as well: it does no harm there, or nobody says
ANY = {'c libraries': ('obj', 'intf'), 'preprocessor': ('lib', 'exe'), 'syntaxes': ('lib', 'exe'), 'ppopts': ('lib', 'exe'), 'flags': ('intf',), 'flags first': ('intf',), 'c compiler': ('intf',),
       'optimize flags': ('intf',), 'debug flags': ('intf',), 'profile flags': ('intf',), 'includes': ()}
SWITCHES = {'debug': ('-g', ALL), 'optimize': ('-fast', ALL), 'linkpkg': ('-linkpkg', ('exe',))}


class Tools(Base):
    def __init__(self, *a, made, **kw):
        super().__init__(*a, **kw)
        self.made = made
        self.commands = []

    def run(self, cmd):
        full = cmd
        if os.path.basename(cmd[0]) == 'ocamlfind':
            cmd = ['w/bin/' + cmd[1]] + cmd[2:]
        tool = os.path.basename(cmd[0])
        if tool.startswith('ocaml'):
            self.commands.append((tool, full))
            if '-o' in cmd:
                self.made[cmd[cmd.index('-o') + 1]] = full
        return super().run(cmd)


def has(cmd, look):
    return any(cmd[i:i + len(look)] == look for i in range(len(cmd)))


def builds(ctx, names=('includes',), module='fbuild.builders.ocaml', kind='Ocamlc', runs=2, levels=('builder', 'call'), tuples=False):
    """What is built is made with the options given now, wherever they are given."""
    w = World(ctx)
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    for t in ('ocamlc', 'ocamlopt', 'ocamlcp', 'ocamldep', 'ocamlfind', 'uname'):
        w.write('bin/' + t, None)
    os.environ['PATH'] = 'w/bin'
    for d in ('src', 'incA', 'incB'):
        os.makedirs('w/' + d, exist_ok=True)
    for n, text in (('a.ml', 'use B\n'), ('b.ml', '1\n'), ('b.mli', '2\n')):
        with open('w/src/' + n, 'w') as f:
            f.write(text)
        w.touch('src/' + n, 5.0)
    name = ctx.pick('option', names) if len(names) > 1 else names[0]
    found = 'ocamlfind' in module or 'batteries' in module
    made, last = {}, None
    seq = tuple if tuples else list
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        kw = {'builder': {}, 'call': {}}
        given = {}
        for level in ('builder', 'call'):
            can = name in SWITCHES or TABLE[name][0 if level == 'builder' else 2]
            if level not in levels or not can:
                given[level] = None
                continue
            v = given[level] = ctx.pick('run%d_%s' % (r, level), [None, True, False] if name in SWITCHES else [None, 'A', 'B'])
            if v is None:
                continue
            if name in SWITCHES:
                kw[level] = {name: v}
            else:
                kw[level] = {k: seq(x) if isinstance(x, list) else x for k, x in TABLE[name][0 if level == 'builder' else 2](v).items()}
        if name == 'optimize':
            kw['builder']['optimize_flags'] = seq(['-fast'])
        proc = w.process('pickle')
        c = proc.ctx
        c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
        c.scheduler = Inline(types.SimpleNamespace(bool=lambda n: False, is_true=bool), 0)
        tools = c.execute = Tools(w, proc.fbuild.ExecutionError, made=made)
        os.makedirs('w/build/.tmp', exist_ok=True)
        m, temp = fresh.load(module, 'fbuild.temp')
        temp.set_default_tempdir('w/build/.tmp')
        proc.connect()
        builder = getattr(m, kind)(c, **kw['builder'])
        configured = len(tools.commands)
        call, ecall = dict(kw['call']), dict(kw['call'])
        if name == 'linkpkg':
            call = {}
            ecall = dict(lkwargs=ecall) if ecall else {}
        lib = builder.build_lib('l', ['w/src/b.mli', 'w/src/b.ml'], **call)
        exe = builder.build_exe('prog', ['w/src/a.ml'], libs=[lib], **ecall)
        proc.close()
        shutil.rmtree('w/build/.tmp')
        what = (r, name, module, kind, [given['builder'], given['call']])
        pairs = [('ocamlc', lib.bytecode, exe.bytecode), ('ocamlopt', lib.native, exe.native)] if kind == 'Ocaml' else [(kind.lower(), lib, exe)]
        jobs = []
        native = False
        for tool, lib, exe in pairs:
            lib, exe = str(lib), str(exe)
            native = native or tool == 'ocamlopt'
            for x, p in (('lib', lib), ('exe', exe)):
                ctx.check(p in made, 'everything is made', (what, p))
                jobs.append((x, tool, made[p]))
                objs = [a for a in made[p] if a.endswith(('.cmo', '.cmx'))]
                ctx.check(len(objs) == 1, 'everything is made', (what, made[p]))
                ctx.check(all(o in made for o in objs), 'everything is made', (what, objs))
                jobs += [('obj', tool, made[o]) for o in objs]
            ctx.check(lib in made[exe] and made[exe].index(lib) < made[exe].index(objs[0]), 'libraries come first', (what, made[exe]))
        intf = made.get('w/build/w/src/b.cmi')
        ctx.check(intf is not None, 'everything is made', what)
        other = native and kind != 'Ocaml'
        jobs.append(('intf' if other else 'obj', 'ocamlc' if native else pairs[0][0], intf))
        jobs += [('dep', 'ocamldep', cmd) for t, cmd in tools.commands[configured:] if t == 'ocamldep']
        for x, tool, cmd in jobs:
            ctx.check(cmd[:2] == ['w/bin/ocamlfind', tool] if found else cmd[0] == 'w/bin/' + tool, 'the right tool is run', (what, x, cmd))
            ctx.check(('-c' in cmd) == (x in ('obj', 'intf')), 'sources are compiled and objects are linked', (what, x, cmd))
            ctx.check(('-a' in cmd) == (x == 'lib'), 'sources are compiled and objects are linked', (what, x, cmd))
            if x == 'dep':
                ctx.check('-modules' in cmd and cmd[-1].startswith('w/'), 'the right tool is run', (what, x, cmd))
            if 'batteries' in module:
                ctx.check(has(cmd, ['-package', 'batteries']), 'options reach the tools', (what, x, cmd))
            if name in SWITCHES:
                look, who = SWITCHES[name]
                on = given['call'] if given['call'] is not None else given['builder'] if given['builder'] is not None else name == 'linkpkg'
                if x == 'intf' and given['call'] is None:
                    continue
                if x in who or x == 'intf' and name == 'debug':
                    ctx.check((look in cmd) == bool(on), 'what is given to a call counts', (what, x, cmd))
                    ctx.reach('switched on' if on else 'switched off')
                elif x != 'intf' or name == 'linkpkg':
                    ctx.check(look not in cmd, 'nothing else reaches the tools', (what, x, cmd))
                continue
            _, toB, _, toC, look = TABLE[name]
            overrides = name in ('c compiler', 'profile flags', 'profiled', 'compile arguments', 'link arguments')
            for v in ('A', 'B'):
                byC = x in toC and given['call'] == v
                byB = x in toB and given['builder'] == v and not (overrides and given['call'] not in (None, v))
                if tool == 'ocamlc' and name == 'profile flags':
                    byB = byC = False
                l = look(v)
                if name == 'libraries':
                    l = [l[0] + ('.cmxa' if tool == 'ocamlopt' else '.cma')]
                if name == 'custom' and (v == 'B' or tool == 'ocamlopt' and kind == 'Ocaml'):
                    # (not asked for; and native programs always are)
                    byC = False
                if byB or byC:
                    ctx.check(has(cmd, l), 'options reach the tools', (what, x, cmd))
                    ctx.reach('reached ' + x)
                elif x not in ANY.get(name, ()) and not (name == 'custom' and tool == 'ocamlopt'):
                    ctx.check(not has(cmd, l), 'nothing else reaches the tools', (what, x, cmd))
        done = tools.commands[configured:]
        if last == given:
            ctx.check(not done, 'nothing is done if nothing has changed', (what, done))
            ctx.reach('nothing done')
        last = given
        ctx.reach('made')
        ctx.observe((what, len(done)))
    ctx.sample(runs=runs)


def temporary(ctx, module='fbuild.builders.ocaml', kind='Ocamlc'):
    """Programs that are only tried."""
    w = World(ctx)
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    for t in ('ocamlc', 'ocamlopt', 'ocamlcp', 'ocamldep', 'ocamlfind', 'uname'):
        w.write('bin/' + t, None)
    os.environ['PATH'] = 'w/bin'
    proc = w.process('pickle')
    c = proc.ctx
    c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
    c.scheduler = Inline(types.SimpleNamespace(bool=lambda n: False, is_true=bool), 0)
    tools = Tools(w, proc.fbuild.ExecutionError, made={})
    fails = ctx.pick('fails', ['', 'compile', 'lib', 'link', 'run'])
    what = ctx.pick('tried', ['compile', 'lib', 'exe', 'run'])
    phase = [0]
    runs = []

    def execute(cmd, *a, cwd=None, **kw):
        cmd = [str(x) for x in cmd]
        if phase[0]:
            step = 'run' if 'ocaml' not in cmd[0] else 'compile' if '-c' in cmd else 'lib' if '-a' in cmd else 'link'
            if step == 'run':
                runs.append(cmd)
                # a program is looked for in the directory it is run in
                if not os.path.exists(os.path.join(str(cwd or '.'), cmd[0])):
                    raise FileNotFoundError(cmd[0])
            if step == fails:
                raise proc.fbuild.ExecutionError(cmd, b'', b'', 1)
        return tools(cmd, *a, **kw)
    c.execute = execute
    os.makedirs('w/build/.tmp', exist_ok=True)
    m, temp = fresh.load(module, 'fbuild.temp')
    temp.set_default_tempdir('w/build/.tmp')
    proc.connect()
    builder = getattr(m, kind)(c)
    phase[0] = 1
    got = {'compile': builder.try_compile, 'lib': builder.try_link_lib, 'exe': builder.try_link_exe, 'run': builder.try_run}[what]('let x = 5')
    needs = {'compile': ['compile'], 'lib': ['compile', 'lib'], 'exe': ['compile', 'link'], 'run': ['compile', 'link', 'run']}[what]
    ctx.check(got is (fails not in needs), 'what is tried says if it works', (what, fails, kind, got))
    ctx.check(len(runs) == (what == 'run' and fails in ('', 'run', 'lib')), 'programs are run', (what, fails, kind, len(runs)))
    ctx.reach('tried, works' if got else 'tried, fails')
    proc.close()
    ctx.observe((what, fails, kind, got))
    ctx.sample(kind=kind)
