"""Building OCaml projects with a modelled compiler: histories of changes."""
import os
import re
import shutil
import types

from symx import fresh
from symx.world import World, tok, untok

from .cbuild import InlineScheduler, Log, escape


def module_of(path):
    n = os.path.splitext(os.path.basename(path))[0]
    return n[0].upper() + n[1:]


class Tools:
    """ocamldep, ocamlc and ocamlopt: what they read and write, and how they fail."""

    def __init__(self, w, Error):
        self.w = w
        self.Error = Error
        self.log = []

    def __call__(self, cmd, msg1=None, msg2=None, *, cwd=None, **kw):
        cmd = [str(c) for c in cmd]
        try:
            return self.run(cmd), b''
        except (OSError, LookupError, ValueError) as e:
            raise self.Error(cmd, b'', repr(e).encode(), 1)

    def get(self, path):
        with open(path) as f:
            return f.read()

    def put(self, path, text):
        with open(path, 'w') as f:
            f.write(text)
        rel = os.path.relpath(os.path.join(os.environ['SYMX_SCRATCH'], path), self.w.dir)
        if not rel.startswith('..'):
            self.w.touch(rel, self.w.now)

    def run(self, cmd):
        tool = os.path.basename(cmd[0])
        if tool == 'uname':
            return b'Linux\n'
        if tool == 'ocamldep':
            src = cmd[-1]
            used = sorted(re.findall(r'use (\w+)', self.get(src)))
            return ('%s:%s\n' % (escape(src), ''.join(' ' + m for m in used))).encode()
        if tool in ('ocamlc', 'ocamlopt', 'ocamlcp'):
            return self.compiler(tool, cmd[1:])
        assert self.get(cmd[0]).startswith('EXE'), cmd
        return b'5'

    def find(self, module, includes, ext):
        for d in includes:
            for n in (module[0].lower() + module[1:], module):
                p = os.path.join(d, n + ext)
                if os.path.exists(p):
                    return p
        raise ValueError('Unbound module ' + module)

    def compiler(self, tool, args):
        native = tool == 'ocamlopt'
        cmo, cma, o, a = ('.cmx', '.cmxa', '.o', '.a') if native else ('.cmo', '.cma', None, None)
        includes, srcs, flags, out, pack = [], [], [], None, None
        i = 0
        while i < len(args):
            x = args[i]
            if x == '-I':
                i += 1
                includes.append(args[i])
            elif x == '-for-pack':
                i += 1
                pack = args[i]
            elif x in ('-package', '-syntax', '-ppopt', '-pp', '-cc', '-cclib'):
                i += 1
            elif x == '-o':
                i += 1
                out = args[i]
            elif x.startswith('-'):
                flags.append(x)
            else:
                srcs.append(x)
            i += 1
        if '-c' in flags:
            src, = srcs
            text = self.get(src)
            t = re.search(r'SYM#\d{5}#', text)
            t = t.group(0) if t else ''
            uses = sorted(set(re.findall(r'use (\w+)', text)) | set(re.findall(r'Lib\b', text)))
            imports = ''.join(self.get(self.find(m, includes, '.cmi')) for m in uses if m != 'List')
            interface = '(intf %s %s%s)' % (module_of(src), t, imports)
            if src.endswith('.mli'):
                self.put(out, interface)
            else:
                cmi = os.path.splitext(out)[0] + '.cmi'
                if os.path.exists(os.path.splitext(src)[0] + '.mli'):
                    own = self.get(self.find(module_of(src), [os.path.dirname(out)] + includes, '.cmi'))
                else:
                    own = interface
                    self.put(cmi, own)
                kept = ' -g' * ('-g' in flags) + (' in %s' % pack if pack else '')
                if native:
                    # (inlining: the implementations of modules that are found matter as well)
                    for m in uses:
                        for d in includes:
                            x = os.path.join(d, m[0].lower() + m[1:] + '.cmx')
                            if os.path.exists(x):
                                imports += '[%s]' % self.get(x).strip()
                                break
                self.put(out, '(obj%s %s %s %s|%s)\n' % (kept, module_of(src), t, own, imports))
                if native:
                    self.put(os.path.splitext(out)[0] + '.o', 'native ' + t + '\n')
            self.log.append(('compile', src, tool))
            return b''
        if '-pack' in flags:
            return self.pack(out, srcs, native, flags)
        text = ''
        for s in srcs:
            if '/' not in s:
                # (an installed library)
                continue
            text += self.get(s)
            if native:
                text += self.get(os.path.splitext(s)[0] + ('.a' if s.endswith('.cmxa') else '.o'))
        if '-a' in flags:
            self.put(out, ''.join(l for l in text.splitlines(True) if l.startswith('(')))
            if native:
                self.put(os.path.splitext(out)[0] + '.a', ''.join(l for l in text.splitlines(True) if not l.startswith('(')))
            self.log.append(('lib', out, tool))
        else:
            self.put(out, 'EXE\n' + text)
            self.log.append(('link', out, tool))
        return b''

    def pack(self, out, srcs, native, flags):
        name = module_of(out)
        objs, intfs, natives = '', '', ''
        for s in srcs:
            text = self.get(s).strip()
            if native:
                if not re.match(r'\((obj|pack)[^|]* in %s ' % name, text):
                    raise ValueError('%s was not compiled for %s' % (s, name))
                natives += self.get(os.path.splitext(s)[0] + '.o')
            objs += '{' + text + '}'
            intfs += self.get(os.path.splitext(s)[0] + '.cmi')
        self.put(out, '(obj%s %s packed |%s)\n' % (' -g' * ('-g' in flags), name, objs))
        self.put(os.path.splitext(out)[0] + '.cmi', '(intf %s %s)' % (name, intfs))
        if native:
            self.put(os.path.splitext(out)[0] + '.o', natives)
        self.log.append(('pack', out, 'ocamlopt' if native else 'ocamlc'))
        return b''


class Inline(InlineScheduler):
    """Calls in an order that map_with_dependencies allows (C11)."""

    def __init__(self, ctx, r):
        self.ctx = ctx
        self.r = r
        self.n = 0

    def map_with_dependencies(self, depends, f, srcs):
        srcs = list(srcs)
        self.n += 1
        if self.ctx.is_true(self.ctx.bool('run%d_order%d' % (self.r, self.n))):
            srcs.reverse()
        deps = {s: [d for d in depends(s) if d in srcs and d != s] for s in srcs}
        done, out = set(), []
        def go(s):
            if s in done:
                return
            done.add(s)
            for d in deps[s]:
                go(d)
            out.append(f(s))
        for s in srcs:
            go(s)
        return out


def project(ctx, runs=2, kind='bytecode', modules=('a.ml', 'b.mli', 'b.ml'), lib=True, change='all', flags=False, outputs=False, uses=True, dir='', order=False, init=False):
    """After every build, what was built is what the sources say now."""
    w = World(ctx)
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    for t in ('ocamlc', 'ocamlopt', 'ocamlcp', 'ocamldep', 'uname'):
        w.write('bin/' + t, None)
    os.environ['PATH'] = 'w/bin'
    src = 'w/src' + ('/' + dir if dir else '')
    names = list(modules) + ['main.ml']
    mods = [n[:-3] for n in modules if n.endswith('.ml')]
    last = None
    contents, used = {}, {}
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        new = {}
        for n in names:
            if r and not (change == 'all' or n in change):
                new[n] = contents[n]
            else:
                new[n] = ctx.atom('run%d_%s' % (r, n), 0, 99999 if not ctx.symbolic else None)
        contents = new
        oldused, used = used, {}
        for n in names:
            m = n.rsplit('.', 1)[0]
            earlier = mods if m == 'main' else mods[:mods.index(m)]
            if r and not uses:
                used[n] = oldused[n]
            elif len(earlier) == 1 and n.endswith('.ml') and not uses:
                used[n] = earlier
            else:
                used[n] = [e for e in earlier if ctx.is_true(ctx.bool('run%d_%s_uses_%s' % (r, n, e)))]
        for n in names:
            p = os.path.join(src, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write('content %s\n' % tok(contents[n]) + ''.join('use %s\n' % m.capitalize() for m in used[n] + ['list']))
            w.touch(os.path.relpath(p, 'w'), w.now)
        debug = flags and ctx.is_true(ctx.bool('run%d_debug' % r))
        lost = ''
        if r and outputs:
            lost = ctx.pick('run%d_lost' % r, ['', '.cmi', '.cmo', '.cma', 'prog'] if kind == 'bytecode' else ['', '.cmi', '.cmx', '.cmxa', '.o', '.a', 'prog'])
            for d, _, fs in os.walk('w/build'):
                for f in fs:
                    if lost and f.endswith(lost) and 'temp' not in f:
                        os.remove(os.path.join(d, f))
        # ---- a build ----
        proc = w.process('pickle')
        c = proc.ctx
        c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
        c.scheduler = Inline(ctx, r) if order else Inline(types.SimpleNamespace(bool=lambda n: False, is_true=bool), r)
        tools = Tools(w, proc.fbuild.ExecutionError)
        c.execute = tools
        os.makedirs('w/build/.tmp', exist_ok=True)
        ocaml, temp = fresh.load('fbuild.builders.ocaml', 'fbuild.temp')
        temp.set_default_tempdir('w/build/.tmp')
        proc.connect()
        builder = {'bytecode': ocaml.Ocamlc, 'native': ocaml.Ocamlopt, 'both': ocaml.Ocaml}[kind](c)
        done = len(tools.log)
        failed = None
        try:
            Path = proc.context_mod.Path
            if lib:
                l = builder.build_lib('l', [Path(src) / n for n in modules], debug=debug)
                exe = builder.build_exe('prog', [Path(src) / 'main.ml'], libs=[l], debug=debug)
            else:
                exe = builder.build_exe('prog', [Path(src) / n for n in names], debug=debug)
        except proc.fbuild.ExecutionError as e:
            failed = e
        proc.close()
        shutil.rmtree('w/build/.tmp')
        what = (r, kind, used, lost, dir, debug)
        ctx.check(failed is None, 'a build of correct sources succeeds', (what, failed and str(failed)))
        # ---- what it should be ----
        exes = [(False, exe.bytecode), (True, exe.native)] if kind == 'both' else [(kind == 'native', exe)]
        def interface(m):
            n = m + '.mli' if m + '.mli' in names else m + '.ml'
            return '(intf %s %s%s)' % (m.capitalize(), tok(contents[n]), ''.join(interface(x) for x in sorted(used[n])))
        def obj(m, native):
            n = m + '.ml'
            return '(obj%s %s %s %s|%s)\n' % (' -g' * bool(debug), m.capitalize(), tok(contents[n]), interface(m), ''.join(interface(x) for x in sorted(used[n])) + ''.join('[%s]' % obj(x, native).strip() for x in sorted(used[n])) * native)
        for native, exe in exes:
            with open(exe) as f:
                text = f.read()
            lines = [l for l in text.splitlines(True) if l.startswith('(')]
            got = [re.match(r'\(obj(?: -g)? (\w+)', l).group(1).lower() for l in lines]
            ctx.check(sorted(got) == sorted(mods + ['main']), 'every module is linked once', (what, text))
            for i, m in enumerate(got):
                ctx.check(all(x in got[:i] for x in used[m + '.ml']), 'modules are linked after those they use', (what, got))
                want = obj(m, native)
                strip = lambda t: re.sub(r'SYM#\d{5}#', 'X', t)
                ctx.check(strip(lines[i]) == strip(want), 'what is built is what the sources say', (what, lines[i], want))
                for g, x in zip(re.findall(r'SYM#\d{5}#', lines[i]), re.findall(r'SYM#\d{5}#', want)):
                    ctx.check(ctx.eq(untok(g), untok(x)), 'what is built is what the sources say', (what, lines[i], want))
            if native:
                natives = re.findall(r'native (SYM#\d{5}#)', text)
                ctx.check(len(natives) == len(got), 'native objects are linked as well', (what, text))
                ctx.check(ctx.any([ctx.all([ctx.eq(untok(g), contents[m + '.ml']) for g, m in zip(natives, got)])]), 'native objects are those of the sources', (what, text))
        log = tools.log[done:]
        if last:
            compiled = [os.path.basename(x) for k, x, _ in log if k == 'compile']
            for t in ('ocamlc', 'ocamlopt'):
                mine = [os.path.basename(x) for k, x, by in log if k == 'compile' and by == t]
                ctx.check(len(set(mine)) == len(mine), 'a source is compiled once', (what, mine))
            for n in compiled:
                # everything whose interface it may see
                def closure(n, used):
                    s = []
                    todo = [n] + ([n + 'i'] if n + 'i' in names else [])
                    while todo:
                        x = todo.pop()
                        if x in s:
                            continue
                        s.append(x)
                        todo += [y + '.mli' if y + '.mli' in names else y + '.ml' for y in used[x]]
                        if kind != 'bytecode':
                            # inlining
                            todo += [y + '.ml' for y in used[x]] + ([x[:-1]] if x.endswith('.mli') else []) + ([x + 'i'] if x + 'i' in names else [])
                    return s
                s = closure(n, used)
                same = last['debug'] == debug and all(last['used'][x] == used[x] for x in s) and not lost
                if same:
                    ctx.check(ctx.neg(ctx.all([ctx.eq(contents[x], last['contents'][x]) for x in s])), 'only what changed is compiled again', (what, n, s))
                ctx.reach('compiled again')
            if not compiled and not lost:
                ctx.check(not log, 'nothing is linked if nothing was compiled', (what, log))
                ctx.reach('nothing compiled')
        ctx.reach('built')
        last = dict(contents=contents, used=used, debug=debug)
        ctx.observe((list(map(str, what)), [k for k, _, _ in log]))
    ctx.sample(runs=runs)


def packs(ctx, runs=2, kind='bytecode', via='objs', name='cX', given=False, change=('c1.ml', 'c2.ml', 'm.ml'), outputs=False, root=False, debug=False):
    """Programs that use packs, after every build; and objects that are compiled and linked one by one."""
    w = World(ctx)
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    for t in ('ocamlc', 'ocamlopt', 'ocamlcp', 'ocamldep', 'uname'):
        w.write('bin/' + t, None)
    os.environ['PATH'] = 'w/bin'
    os.makedirs('w/src', exist_ok=True)
    single = via == 'single'
    names = ['c1.ml', 'c2.ml', 'm.ml']
    contents, last = {}, None
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        contents = {n: contents[n] if r and n not in change else ctx.atom('run%d_%s' % (r, n), 0, 99999 if not ctx.symbolic else None) for n in names}
        c2uses = ctx.is_true(ctx.bool('c2_uses_c1')) if r == 0 else c2uses
        uses = {'c1': [], 'c2': ['c1'] if c2uses else [], 'm': ['c2'] if single else [name]}
        for n in names:
            p = os.path.join('w/src', n)
            with open(p, 'w') as f:
                f.write('content %s\n' % tok(contents[n]) + ''.join('use %s\n' % module_of(m) for m in uses[n[:-3]] + ['list']))
            w.touch(os.path.relpath(p, 'w'), w.now)
        lost = ''
        if r and outputs:
            lost = ctx.pick('run%d_lost' % r, ['', '.cmi', '.cmo', 'prog'] if kind == 'bytecode' else ['', '.cmi', '.cmx', '.o', 'prog'])
            for top in ('w/build', 'w/other'):
                for d, _, fs in os.walk(top):
                    for f in fs:
                        if lost and f.endswith(lost) and 'temp' not in f:
                            os.remove(os.path.join(d, f))
        dbg = debug and ctx.is_true(ctx.bool('run%d_debug' % r))
        proc = w.process('pickle')
        c = proc.ctx
        c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
        c.scheduler = Inline(types.SimpleNamespace(bool=lambda n: False, is_true=bool), r)
        tools = Tools(w, proc.fbuild.ExecutionError)
        c.execute = tools
        os.makedirs('w/build/.tmp', exist_ok=True)
        ocaml, temp = fresh.load('fbuild.builders.ocaml', 'fbuild.temp')
        temp.set_default_tempdir('w/build/.tmp')
        proc.connect()
        builder = {'bytecode': ocaml.Ocamlc, 'native': ocaml.Ocamlopt, 'both': ocaml.Ocaml}[kind](c)
        done = len(tools.log)
        failed = None
        kw = dict(debug=dbg)
        if root:
            kw['buildroot'] = 'w/other'
        what = (r, kind, via, given, c2uses, lost, bool(root), dbg)
        try:
            Path = proc.context_mod.Path
            if single:
                objs = [builder.compile('w/src/' + n, **dict(kw, includes=['w/src'])) for n in names]
                exe = builder.link_exe('prog', objs, **kw)
            else:
                first = builder.build_objects(['w/src/c1.ml'], for_pack=module_of(name), **kw) if given else []
                rest = ['w/src/c2.ml'] if given else ['w/src/c1.ml', 'w/src/c2.ml']
                if via == 'objs':
                    pack = builder.build_pack(name, rest, objs=first, **kw)
                    exe = builder.build_exe('prog', ['w/src/m.ml'], objs=[pack], includes=['w/other' if root else 'w/build'], **kw)
                elif via == 'libs':
                    lib = builder.build_lib('l', rest, objs=first, pack=name, **kw)
                    exe = builder.build_exe('prog', ['w/src/m.ml'], libs=[lib], **kw)
        except proc.fbuild.ExecutionError as e:
            failed = e
        proc.close()
        shutil.rmtree('w/build/.tmp')
        ctx.check(failed is None, 'a build of correct sources succeeds', (what, failed and str(failed)))
        # ---- what it should be ----
        exes = [(False, exe.bytecode), (True, exe.native)] if kind == 'both' else [(kind == 'native', exe)]
        top = 'w/other' if root else 'w/build'
        g = ' -g' * bool(dbg)

        def interface(m):
            if m == name:
                return '(intf %s %s)' % (module_of(m), interface('c1') + interface('c2'))
            return '(intf %s %s%s)' % (m.capitalize(), tok(contents[m + '.ml']), ''.join(interface(x) for x in uses[m]))

        def obj(m, native):
            if m == name:
                return '(obj%s %s packed |%s)\n' % (g, module_of(m), ''.join('{%s}' % obj(x, native).strip() for x in ('c1', 'c2')))
            into = '' if single or m == 'm' else ' in ' + module_of(name)
            return '(obj%s%s %s %s %s|%s)\n' % (g, into, m.capitalize(), tok(contents[m + '.ml']), interface(m), ''.join(interface(x) for x in uses[m]) + ''.join('[%s]' % obj(x, native).strip() for x in uses[m]) * native)
        for native, exe in exes:
            ctx.check(str(exe) == top + '/prog' + ('.native' if native else '.byte') * (kind == 'both'), 'programs are in the build root', (what, str(exe)))
            with open(exe) as f:
                text = f.read()
            lines = [l for l in text.splitlines(True) if l.startswith('(')]
            got = [{'C1': 'c1', 'C2': 'c2', 'M': 'm'}.get(n, name) for n in (re.match(r'\(obj(?: -g)?(?: in \w+)? (\w+)', l).group(1) for l in lines)]
            ctx.check(sorted(got) == (sorted(['c1', 'c2', 'm']) if single else [name, 'm']) and got[-1] == 'm', 'every module is linked once', (what, text))
            for m, line in zip(got, lines):
                want = obj(m, native)
                strip = lambda t: re.sub(r'SYM#\d{5}#', 'X', t)
                if not c2uses and m == name:
                    # (either order)
                    if '{(obj' in line and line.index(' C2 ') < line.index(' C1 '):
                        continue
                ctx.check(strip(line) == strip(want), 'what is built is what the sources say', (what, line, want))
                for a, b in zip(re.findall(r'SYM#\d{5}#', line), re.findall(r'SYM#\d{5}#', want)):
                    ctx.check(ctx.eq(untok(a), untok(b)), 'what is built is what the sources say', (what, line, want))
            if native:
                natives = re.findall(r'native (SYM#\d{5}#)', text)
                ctx.check(len(natives) == 3, 'native objects are linked as well', (what, text))
                for n in names:
                    ctx.check(ctx.any([ctx.eq(untok(x), contents[n]) for x in natives]), 'native objects are those of the sources', (what, text))
        log = tools.log[done:]
        if last is not None and not lost and last[1] == dbg:
            changed = [n for n in names if ctx.is_true(ctx.neg(ctx.eq(contents[n], last[0][n])))]
            compiled = {os.path.basename(x) for k, x, _ in log if k == 'compile'}
            may = {n for n in names if n in changed or 'c1.ml' in changed and (n == 'm.ml' and (c2uses or not single) or n == 'c2.ml' and c2uses) or 'c2.ml' in changed and n == 'm.ml'}
            ctx.check(compiled <= may, 'only what changed is compiled again', (what, sorted(compiled), changed))
            if not changed:
                ctx.check(not log, 'nothing is done if nothing has changed', (what, log))
                ctx.reach('nothing done')
            else:
                ctx.reach('made again')
        last = (contents, dbg)
        ctx.reach('built')
        ctx.observe((list(map(str, what)), [k for k, _, _ in log]))
    ctx.sample(runs=runs)


def generated(ctx, tool='ocamllex', runs=2, dir='', levels=('builder', 'call')):
    """Sources that ocamllex and ocamlyacc write."""
    w = World(ctx)
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    w.write('bin/' + tool, None)
    os.environ['PATH'] = 'w/bin'
    ext = '.mll' if tool == 'ocamllex' else '.mly'
    made, last = {}, None
    content = None
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        content = ctx.atom('run%d' % r, 0, 99999 if not ctx.symbolic else None)
        src = 'w/src/' + dir + 'x' + ext
        os.makedirs(os.path.dirname(src), exist_ok=True)
        with open(src, 'w') as f:
            f.write('content %s\n' % tok(content))
        w.touch(os.path.relpath(src, 'w'), w.now)
        given = {l: ctx.pick('run%d_%s' % (r, l), ['', '-a', '-b']) for l in levels}
        root = ctx.pick('run%d_root' % r, ['', 'w/other'])
        lost = []
        if r:
            for p in sorted(made):
                if p.endswith(('.ml', '.mli')) and ctx.is_true(ctx.bool('run%d_lost_%s' % (r, os.path.basename(p)))):
                    lost.append(p)
                    if os.path.exists(p):
                        os.remove(p)
        proc = w.process('pickle')
        c = proc.ctx
        c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
        log = []

        def execute(cmd, *a, **kw):
            cmd = [str(x) for x in cmd]
            log.append(cmd)
            with open(cmd[-1]) as f:
                text = f.read()
            flags = [x for x in cmd[1:-1] if x in ('-a', '-b')]
            out = [cmd[cmd.index('-o') + 1]] if '-o' in cmd else [cmd[-1][:-1 - 2] + 'ml', cmd[-1][:-3] + 'mli']
            for o in out:
                made[o] = True
                with open(o, 'w') as f:
                    f.write('%s %s of %s' % (os.path.splitext(o)[1], ' '.join(flags), text))
                w.touch(os.path.relpath(o, 'w'), w.now)
            return b'', b''
        c.execute = execute
        ocaml, = fresh.load('fbuild.builders.ocaml')
        proc.connect()
        flags = {l: [f] if f else [] for l, f in given.items()}
        make = {'ocamllex': ocaml.Ocamllex, 'ocamlyacc': ocaml.Ocamlyacc}[tool](c, flags=flags.get('builder', []))
        kw = dict(buildroot=root) if root else {}
        dsts = make(src if r % 2 else proc.context_mod.Path(src), flags=flags.get('call', []), **kw)
        proc.close()
        dsts = [str(d) for d in ([dsts] if isinstance(dsts, str) else dsts)]
        what = (r, tool, [given[l] for l in levels], root, [os.path.basename(p) for p in lost], dir)
        base = (root or 'w/build') + '/w/src/' + dir + 'x'
        ctx.check(dsts == [base + '.ml'] + [base + '.mli'] * (tool == 'ocamlyacc'), 'generated sources are in the build root', (what, dsts))
        for d in dsts:
            ctx.check(os.path.exists(d), 'what is built is what the sources say', (what, d))
            with open(d) as f:
                text = f.read()
            want = '%s %s of content %s\n' % (os.path.splitext(d)[1], ' '.join(f for l in levels for f in flags[l]), tok(content))
            strip = lambda t: re.sub(r'SYM#\d{5}#', 'X', t)
            ctx.check(strip(text) == strip(want), 'what is built is what the sources say', (what, text, want))
            ctx.check(ctx.eq(untok(re.search(r'SYM#\d{5}#', text).group(0)), content), 'what is built is what the sources say', (what, text, want))
        if last is not None and last[:2] == (given, root) and not any(d in lost for d in dsts):
            if ctx.is_true(ctx.eq(last[2], content)):
                ctx.check(not log, 'nothing is done if nothing has changed', (what, log))
                ctx.reach('nothing done')
            else:
                ctx.reach('made again')
        last = (given, root, content)
        ctx.reach('generated')
        ctx.observe((list(map(str, what)), len(log)))
    ctx.sample(runs=runs)
