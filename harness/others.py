"""Java, Haskell, bison and nm: histories of builds with modelled tools."""
import os
import re
import shutil
import types

from symx import fresh
from symx.world import World, tok, untok

from .cbuild import InlineScheduler


class Tools:
    """What the tools read, write and print, and how they fail."""

    def __init__(self, w, Error):
        self.w = w
        self.Error = Error
        self.log = []
        self.symbols = {}

    def __call__(self, cmd, msg1=None, msg2=None, *, cwd=None, **kw):
        cmd = [str(c) for c in cmd]
        try:
            out = self.run(cmd, str(cwd or '.'))
        except (OSError, LookupError, ValueError) as e:
            raise self.Error(cmd, b'', repr(e).encode(), 1)
        return out if isinstance(out, tuple) else (out, b'')

    def get(self, path):
        with open(path) as f:
            return f.read()

    def put(self, path, text):
        with open(path, 'w') as f:
            f.write(text)
        rel = os.path.relpath(os.path.join(os.environ['SYMX_SCRATCH'], path), self.w.dir)
        if not rel.startswith('..'):
            self.w.touch(rel, self.w.now)

    def run(self, cmd, cwd):
        tool = os.path.basename(cmd[0])
        if tool == 'uname':
            return b'Linux\n'
        assert tool in ('javac', 'jar', 'java', 'ghc', 'bison', 'nm', 'flx', 'llvm-as', 'llc'), cmd
        return getattr(self, tool.replace('-', '_'))(cmd[1:], cwd)

    # ---- java ----
    def javac(self, args, cwd):
        out, cp, srcs, flags, verbose = '.', None, [], [], False
        i = 0
        while i < len(args):
            a = args[i]
            if a in ('-d', '-cp', '-classpath', '-sourcepath', '-target', '-source'):
                i += 1
                if a == '-d':
                    out = args[i]
                elif a in ('-cp', '-classpath'):
                    cp = args[i]        # the last one counts
                else:
                    flags.append(a + ' ' + args[i])
            elif a == '-verbose':
                verbose = True
            elif a.startswith('-'):
                if ':' in a and not a.startswith(('-g:', '-X')):
                    raise ValueError('invalid flag: ' + a)
                flags.append(a)
            else:
                assert a.endswith('.java'), 'javac compiles .java files: ' + a
                srcs.append(a)
            i += 1
        if not os.path.isdir(out):
            raise FileNotFoundError(out)
        err = '[parsing started]\n'
        for s in srcs:
            classes, text, where = {}, '', ''
            for line in self.get(s).splitlines():
                what, _, rest = line.strip().partition(' ')
                if what == 'package':
                    where = rest + '/'
                elif what == 'class':
                    cur = where + rest
                    classes[cur] = 'CLASS %s %s\n' % (cur, ' '.join(sorted(flags)))
                elif what == 'content':
                    classes[cur] += line.strip() + '\n'
                elif what == 'uses':
                    classes[cur] += self.constants(rest, (cp or '.').split(os.pathsep))
                elif what == 'absent':
                    raise ValueError('cannot find symbol')
            for n, t in classes.items():
                p = os.path.join(out, n + '.class')
                os.makedirs(os.path.dirname(p), exist_ok=True)
                self.put(p, t)
                err += '[wrote %s]\n' % p
            self.log.append(('compile', s))
        return b'', (err + '[total 1ms]\n').encode() if verbose else b''

    def constants(self, name, cp):
        for d in cp:
            if os.path.isdir(d) and os.path.exists(os.path.join(d, name + '.class')):
                t = self.get(os.path.join(d, name + '.class'))
            elif os.path.isfile(d):
                m = dict(re.findall(r'<member (.*?)>\n(.*?)</member>\n', self.get(d), re.S))
                if name + '.class' not in m:
                    continue
                t = m[name + '.class']
            else:
                continue
            return ''.join('saw %s\n' % x for x in re.findall(r'content (.*)\n', t))
        raise LookupError('cannot find symbol ' + name)

    def jar(self, args, cwd):
        i = {'cf': 1, 'cmf': 2}[args[0]]
        manifest = self.get(os.path.join(cwd, args[1])) if i == 2 else ''
        text = '<manifest>\n%s</manifest>\n' % manifest
        for n in args[i + 1:]:
            text += '<member %s>\n%s</member>\n' % (n, self.get(os.path.join(cwd, n)))
        self.put(os.path.join(cwd, args[i]), text)
        self.log.append(('jar', os.path.normpath(os.path.join(cwd, args[i]))))
        return b''

    def java(self, args, cwd):
        self.log.append(('java', *args))
        return b''

    # ---- haskell ----
    def ghc(self, args, cwd):
        out, srcs, flags, c = None, [], [], False
        i = 0
        while i < len(args):
            a = args[i]
            if a in ('-o', '-odir', '-hidir'):
                i += 1
                if a == '-o':
                    out = args[i]
            elif a == '-c':
                c = True
            elif a.startswith('-'):
                flags.append(a)
            else:
                srcs.append(a)
            i += 1
        if os.path.isabs(srcs[0]) and '.tmp' in srcs[0]:
            return b''
        text = ''.join(self.get(os.path.join(cwd, s)) for s in srcs)
        if 'absent' in text:
            raise ValueError('not in scope')
        self.put(os.path.join(cwd, out), ('OBJECT %s\n' % ' '.join(sorted(flags)) if c else 'EXE\n') + text)
        self.log.append(('compile', srcs[0]) if c else ('link', out))
        return b''

    # ---- bison ----
    def bison(self, args, cwd):
        out, d, flags = None, False, []
        i = 0
        while i < len(args):
            a = args[i]
            if a in ('-o', '-p'):
                i += 1
                if a == '-o':
                    out = args[i]
                else:
                    flags.append('-p ' + args[i])
            elif a == '-d':
                d = True
            elif a.startswith('-'):
                flags.append(a)
            else:
                src = a
            i += 1
        text = self.get(src)
        if 'absent' in text:
            raise ValueError('syntax error')
        self.put(out, 'PARSER %s\n%s' % (sorted(flags), text))
        if d:
            base, ext = os.path.splitext(out)
            self.put(base + ext.replace('c', 'h'), 'HEADER\n' + text)
        self.log.append(('bison', out))
        return b''

    # ---- felix ----
    def flx(self, args, cwd):
        flags = sorted(a for a in args if a.startswith('-') and a != '-c' and a != '--static')
        src = args[-1]
        if '-c' not in args:
            if not src.endswith('.flx'):
                assert any(os.path.exists(src + x) for x in ('', '.so'))
            self.log.append(('run', src))
            return b''
        text = self.get(src)
        if 'absent' in text:
            raise ValueError('syntax error')
        out = os.path.splitext(src)[0] + ('' if '--static' in args else '.so')
        self.put(out, 'FELIX %s\n%s' % (' '.join(flags), text))
        self.log.append(('flx', src))
        return b''

    # ---- llvm ----
    def llvm_as(self, args, cwd):
        i = args.index('-o')
        out = args[i + 1]
        src, = [a for j, a in enumerate(args) if j not in (i, i + 1) and not a.startswith('-')]
        text = self.get(src)
        if 'absent' in text:
            raise ValueError('syntax error')
        self.put(out, 'LLVM %s\n%s' % (' '.join(sorted(a for a in args if a.startswith('-') and a != '-o')), text))
        self.log.append(('llvm', src))
        return b''
    llc = llvm_as

    # ---- nm ----
    def nm(self, args, cwd):
        assert args[0] == '-gP'
        self.log.append(('nm', args[1]))
        self.get(args[1])
        out = ''
        for kind, names in self.symbols[args[1]]:
            out += ''.join('%s %s%s\n' % (n, kind, '' if kind in 'Uw' else ' 0000000000000000 0000000000000007') for n in names)
        return out.encode()


def setup(ctx, w, *tools):
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    for t in ('uname', *tools):
        w.write('bin/' + t, None)
    os.environ['PATH'] = 'w/bin'
    os.makedirs('w/src', exist_ok=True)


def start(w, *modules):
    proc = w.process('pickle')
    c = proc.ctx
    c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
    c.scheduler = InlineScheduler()
    tools = c.execute = Tools(w, proc.fbuild.ExecutionError)
    os.makedirs('w/build/.tmp', exist_ok=True)
    *mods, temp = fresh.load(*modules, 'fbuild.temp')
    temp.set_default_tempdir('w/build/.tmp')
    proc.connect()
    return (proc, c, tools, *mods)


def stop(proc):
    proc.close()
    shutil.rmtree('w/build/.tmp')


def write(w, name, text):
    with open('w/src/' + name, 'w') as f:
        f.write(text)
    w.touch('src/' + name, w.now)


def lose(ctx, r, what):
    """An output is lost."""
    n = ctx.pick('run%d_lost' % r, ['', *what]) if r and what else ''
    if n:
        for d, _, fs in os.walk('w/build'):
            for f in fs:
                if f == n or n.startswith('.') and f.endswith(n):
                    os.remove(os.path.join(d, f))
    return n


def members(text):
    return re.findall(r'<member (.*?)>\n(.*?)</member>\n', text, re.S)


def java(ctx, runs=2, two=False, lost=(), broken=False, builder_paths=False, package='', options=False, manifest=False):
    """A library, and a program that uses its classes."""
    w = World(ctx)
    setup(ctx, w, 'javac', 'jar', 'java')
    last = None
    w.set_now(5.0)
    ext = ctx.atom('external', 0, 99999 if not ctx.symbolic else None)
    w.write('ext.jar', None)
    with open('w/ext.jar', 'w') as f:
        f.write('<member X.class>\ncontent %s\n</member>\n' % tok(ext))
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        A = {n: ctx.atom('run%d_%s' % (r, n), 0, 99999 if not ctx.symbolic else None) for n in ('L', 'E', *(['M'] if two else []), *(['manifest'] if manifest else []))}
        pk = package + '/' if package else ''
        head = 'package %s\n' % package if package else ''
        has2 = ctx.is_true(ctx.bool('run%d_two_classes' % r)) if two else False
        L = head + 'class L\ncontent %s\n' % tok(A['L']) + ('class M\ncontent %s\n' % tok(A['M']) if has2 else '')
        uses = ctx.is_true(ctx.bool('run%d_uses' % r))
        E = 'class E\ncontent %s\n' % tok(A['E']) + ('uses %sL\n' % pk if uses else '') + ('uses X\n' if builder_paths else '')
        wrong = ctx.is_true(ctx.bool('run%d_wrong' % r)) if broken else False
        write(w, 'L.java', L)
        write(w, 'E.java', E + 'absent\n' * wrong)
        if manifest:
            write(w, 'manifest', 'content %s\n' % tok(A['manifest']))
        target, debug = None, None
        if options:
            target = ctx.pick('run%d_target' % r, [None, 8])
            debug = ctx.pick('run%d_debug' % r, [None, True])
        gone = lose(ctx, r, lost)
        proc, c, tools, jm = start(w, 'fbuild.builders.java')
        builder = jm.Builder(c, classpaths=['w/ext.jar']) if builder_paths else jm.Builder(c)
        ctx.check(builder.try_compile('class T\n') and not builder.try_compile('class T\nabsent\n'), 'what compiles is told')
        configured = len(tools.log)
        failed = None
        ckw = dict({} if target is None else dict(target=target), **({} if debug is None else dict(debug=debug)))
        try:
            lib = builder.build_lib('lib.jar', ['w/src/L.java'], cwd='w/build/w/src', ckwargs=ckw, **(dict(lkwargs=dict(manifest='w/src/manifest')) if manifest else {}))
            exe = builder.build_lib('exe.jar', ['w/src/E.java'], cwd='w/build/w/src', classpaths=[lib])
        except proc.fbuild.ExecutionError as e:
            failed = e
        if failed is None:
            builder.run_class('E', classpaths=[str(lib), str(exe)])
            ran = tools.log[-1]
        stop(proc)
        what = (r, uses, has2, gone, package, target, debug)
        ctx.check((failed is not None) == wrong, 'a build fails if a source is wrong', (what, str(failed)))
        if failed is not None:
            ctx.reach('failed')
            last = None
            continue
        with open(lib) as f:
            t = f.read()
        got = members(t)
        want = [(pk + 'L.class', 'L')] + [(pk + 'M.class', 'M')] * has2
        ctx.check([n for n, _ in got] == [n for n, _ in want], 'a library has the classes there are now', (what, t))
        for (n, text), (_, k) in zip(got, want):
            x = re.findall(r'content (.*)\n', text)
            ctx.check(lambda: len(x) == 1 and ctx.eq(untok(x[0]), A[k]), 'what is built is what the sources say', (what, k, t))
            flags = text.split('\n')[0].split()[2:]
            ctx.check(('-target' in flags) == (target is not None) and ('-g' in flags) == bool(debug), 'everything is compiled with the options given now', (what, flags))
        if manifest:
            ctx.check(lambda: ctx.eq(untok(t.split('</manifest>')[0]), A['manifest']), 'what is built is what the sources say', (what, 'manifest', t))
        with open(exe) as f:
            t = f.read()
        got = members(t)
        ctx.check([n for n, _ in got] == ['E.class'], 'a library has the classes there are now', (what, t))
        x = re.findall(r'content (.*)\n', got[0][1])
        ctx.check(lambda: len(x) == 1 and ctx.eq(untok(x[0]), A['E']), 'what is built is what the sources say', (what, t))
        saw = re.findall(r'saw (.*)\n', got[0][1])
        need = ([A['L']] if uses else []) + ([ext] if builder_paths else [])
        ctx.check(lambda: len(saw) == len(need) and ctx.all([ctx.eq(untok(s), x) for s, x in zip(saw, need)]), 'a program is compiled with the libraries there are now', (what, t))
        ctx.check(ran[1:] == ('-cp', os.pathsep.join([str(lib), str(exe)]), 'E'), 'a class is run with its libraries', (what, ran))
        done = tools.log[configured:-1]
        now = (A, uses, has2, target, debug)
        if last and not gone and last[1:] == now[1:]:
            ctx.check(lambda: ctx.any([not done, *(ctx.neg(ctx.eq(last[0][k], A[k])) for k in A)]), 'nothing is done if nothing has changed', (what, done))
        if not done:
            ctx.reach('nothing done')
        last = now
        ctx.reach('java')
        ctx.observe((what, [k for k, *_ in done]))
    ctx.sample(runs=runs)


def haskell(ctx, runs=2, lost=(), broken=False, flags=False, dir=''):
    """A program of two modules."""
    w = World(ctx)
    setup(ctx, w, 'ghc')
    last = None
    if dir:
        os.makedirs('w/src/' + dir, exist_ok=True)
    d = dir + '/' if dir else ''
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        A = {n: ctx.atom('run%d_%s' % (r, n), 0, 99999 if not ctx.symbolic else None) for n in ('A', 'B')}
        wrong = ctx.pick('run%d_wrong' % r, ['', 'A', 'B']) if broken else ''
        for n in A:
            write(w, d + n + '.hs', 'content %s\n' % tok(A[n]) + 'absent\n' * (n == wrong))
        which = ctx.pick('run%d_sources' % r, [['A', 'B'], ['A'], ['B', 'A']])
        fl = ['-O'] if flags and ctx.is_true(ctx.bool('run%d_optimized' % r)) else []
        bfl = ['-X'] if flags and ctx.is_true(ctx.bool('run%d_extended' % r)) else []
        gone = lose(ctx, r, lost)
        proc, c, tools, hm = start(w, 'fbuild.builders.ghc')
        builder = hm.Builder(c, flags=bfl)
        configured = len(tools.log)
        failed = None
        try:
            exe = builder.build_exe('prog', ['w/src/' + d + n + '.hs' for n in which], ckwargs=dict(flags=fl))
        except proc.fbuild.ExecutionError as e:
            failed = e
        stop(proc)
        what = (r, which, fl, bfl, gone)
        ctx.check((failed is not None) == (wrong in which), 'a build fails if a source is wrong', (what, str(failed)))
        if failed is not None:
            ctx.reach('failed')
            last = None
            continue
        with open(exe) as f:
            t = f.read()
        got = re.findall(r'content (.*)\n', t)
        ctx.check(str(exe) == 'w/build/prog', 'outputs are in the build directory', str(exe))
        ctx.check(lambda: len(got) == len(which) and ctx.all([ctx.eq(untok(g), A[n]) for g, n in zip(got, which)]), 'what is built is what the sources say', (what, t))
        ctx.check(all(x.split() == sorted(fl + bfl) for x in re.findall('OBJECT(.*)\n', t)), 'everything is compiled with the options given now', (what, t))
        done = tools.log[configured:]
        now = (A, which, fl, bfl)
        if last:
            if not gone and last[1:] == now[1:]:
                ctx.check(lambda: ctx.any([not done, *(ctx.neg(ctx.eq(last[0][k], A[k])) for k in which)]), 'nothing is done if nothing has changed', (what, done))
                for k, s in done:
                    if k == 'compile':
                        n = os.path.basename(s)[0]
                        ctx.check(ctx.neg(ctx.eq(last[0][n], A[n])), 'only what changed is compiled again', (what, n))
        if not done:
            ctx.reach('nothing done')
        last = now
        ctx.reach('haskell')
        ctx.observe((what, [k for k, *_ in done]))
    ctx.sample(runs=runs)


def bison(ctx, runs=2, lost=('.c', '.h'), broken=False, options=False, suffix=None, given=()):
    w = World(ctx)
    setup(ctx, w, 'bison')
    last = None
    ext = suffix or '.c'
    hext = ext.replace('c', 'h')
    lost = [x.replace('c', ext[1:]).replace('h', hext[1:]) for x in lost]
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        A = ctx.atom('run%d' % r, 0, 99999 if not ctx.symbolic else None)
        wrong = broken and ctx.is_true(ctx.bool('run%d_wrong' % r))
        write(w, 'p.y', 'content %s\n' % tok(A) + 'absent\n' * wrong)
        defines = ctx.is_true(ctx.bool('run%d_defines' % r))
        prefix = ctx.pick('run%d_prefix' % r, [None, 'x', 'y']) if options else None
        fl = ['-k'] if options and ctx.is_true(ctx.bool('run%d_flag' % r)) else []
        gone = lose(ctx, r, lost)
        proc, c, tools, bm = start(w, 'fbuild.builders.bison')
        has = {k: ctx.is_true(ctx.bool('run%d_%s' % (r, k))) for k in given}
        bfl = ['-m'] * has.get('bflags', False)
        b = bm.Bison(c, flags=bfl, **(dict(suffix=suffix) if suffix else {}))
        kw = {}
        cext, chext, root, name = ext, hext, 'w/build', 'w/src/p'
        if has.get('suffix'):
            kw['suffix'] = cext = '.cxx'
            chext = '.hxx'
        if has.get('buildroot'):
            kw['buildroot'] = root = 'w/other'
        if has.get('dst'):
            kw['dst'] = 'd/q.x'
            name = 'd/q'
        if has.get('verbose'):
            kw['verbose'] = True
        failed = None
        try:
            got = b('w/src/p.y', defines=defines, name_prefix=prefix, flags=fl, **kw)
        except proc.fbuild.ExecutionError as e:
            failed = e
        stop(proc)
        what = (r, defines, prefix, fl, gone, cext, sorted(k for k in has if has[k]))
        ctx.check((failed is not None) == bool(wrong), 'a build fails if a source is wrong', (what, str(failed)))
        if failed is not None:
            ctx.reach('failed')
            last = None
            continue
        ctx.check(str(got) == '%s/%s%s' % (root, name, cext), 'outputs are in the build directory', str(got))
        for p in [str(got)] + [str(got)[:-len(cext)] + chext] * defines:
            ctx.check(os.path.exists(p), 'everything is made', (what, p))
            if os.path.exists(p):
                with open(p) as f:
                    t = f.read()
                ctx.check(lambda: ctx.eq(untok(t), A), 'what is built is what the sources say', (what, t))
                if p == str(got):
                    ctx.check(t.startswith('PARSER %s\n' % sorted(bfl + fl + ['-v'] * has.get('verbose', False) + ['-p %s' % prefix] * (prefix is not None))), 'everything is compiled with the options given now', (what, t))
        now = (A, defines, prefix, fl, has)
        if last and not gone and last[1:] == now[1:]:
            ctx.check(lambda: ctx.any([not tools.log, ctx.neg(ctx.eq(last[0], A))]), 'nothing is done if nothing has changed', what)
        if not tools.log:
            ctx.reach('nothing done')
        last = now
        ctx.reach('bison')
        ctx.observe((what, len(tools.log)))
    ctx.sample(runs=runs)


def compilers(ctx, which='felix', runs=2, lost=(), broken=False, options=False, given=()):
    """Two sources, compiled one by one."""
    w = World(ctx)
    for d in ('i', 'j'):
        os.makedirs('w/' + d)
    setup(ctx, w, 'flx', 'llvm-as', 'llc')
    last = None
    ext, tail = {'felix': ('.flx', '.so'), 'static felix': ('.flx', ''), 'llvm-as': ('.ll', '.bc'), 'llc': ('.ll', '.o')}[which]
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        A = {n: ctx.atom('run%d_%s' % (r, n), 0, 99999 if not ctx.symbolic else None) for n in ('a', 'b')}
        wrong = ctx.pick('run%d_wrong' % r, ['', 'a', 'b']) if broken else ''
        for n in A:
            write(w, n + ext, 'content %s\n' % tok(A[n]) + 'absent\n' * (n == wrong))
        names = ['a'] if given else ctx.pick('run%d_sources' % r, [['a', 'b'], ['a']])
        fl = ['-x'] if options and ctx.is_true(ctx.bool('run%d_flag' % r)) else []
        has = {k: ctx.is_true(ctx.bool('run%d_%s' % (r, k))) for k in given}
        bk, ck, want = {}, {}, list(fl)
        if has.get('bflags'):
            bk['flags'] = ['-xb', '-xc']
            want += bk['flags']
        for k, v, f in (('arch', 'x86', '-march=x86'), ('relocation_model', 'pic', '-relocation-model=pic'), ('filetype', 'obj', '-filetype=obj'), ('pre_flags', ['-p'], '-p'), ('stdout', 'w/out', '--stdout=w/out')):
            if has.get(k):
                ck[k] = v
                want.append(f)
        if has.get('bdebug'):
            bk['debug'] = True
        if has.get('debug'):
            ck['debug'] = ctx.is_true(ctx.bool('run%d_debug_value' % r))
        if ck.get('debug', has.get('bdebug')):
            want.append('--debug')
        if has.get('static'):
            ck['static'] = ctx.is_true(ctx.bool('run%d_static_value' % r))
            tail = '' if ck['static'] else '.so'
        elif 'felix' in which:
            tail = '' if 'static' in which else '.so'
        if has.get('bincludes'):
            bk['includes'] = ['w/i', 'w/none']
        if has.get('includes'):
            ck['includes'] = ['w/j']
        root = 'w/other' if has.get('buildroot') else 'w/build'
        if has.get('buildroot'):
            ck['buildroot'] = root
        gone = ctx.pick('run%d_lost' % r, ['', *lost]) if r and lost else ''
        if gone:
            for d in ('w/build/w/src/', 'w/src/'):
                if os.path.exists(d + gone + tail):
                    os.remove(d + gone + tail)
        proc, c, tools, fm, lm = start(w, 'fbuild.builders.felix', 'fbuild.builders.llvm')
        srcs = ['w/src/' + n + ext for n in names]
        failed = None
        if 'felix' in which:
            b = fm.Felix(c, static='static' in which, **bk)
        else:
            b = lm.Llc(c, **bk) if which == 'llc' else lm.Llvm_as(c, **bk)
        configured = len(tools.log)
        try:
            if which == 'llvm-as':
                got = [b(s, flags=fl, **ck) for s in srcs]
            else:
                got = list(b.build_objects(srcs, flags=fl, **ck))
        except proc.fbuild.ExecutionError as e:
            failed = e
        done = tools.log[configured:]
        if failed is None and 'felix' in which:
            b.run(got[0])
            ctx.check(tools.log[-1] == ('run', root + '/w/src/a'), 'a program is run', tools.log[-1])
            b.tempfile_run('content 5')
        stop(proc)
        what = (r, which, names, fl, gone, sorted(k for k in has if has[k]), sorted(map(str, ck.items())))
        ctx.check((failed is not None) == (wrong in names), 'a build fails if a source is wrong', (what, str(failed)))
        if failed is not None:
            ctx.reach('failed')
            last = None
            continue
        ctx.check(len(got) == len(names), 'everything is made', what)
        for p, n in zip(got, names):
            ctx.check(which == 'llvm-as' or str(p) == root + '/w/src/' + n + tail, 'outputs are in the build directory', str(p))
            ctx.check(os.path.exists(p), 'everything is made', (what, str(p)))
            if os.path.exists(p):
                with open(p) as f:
                    t = f.read()
                ctx.check(lambda: ctx.eq(untok(t), A[n]), 'what is built is what the sources say', (what, t))
                words = t.split('\n')[0].split()[1:]
                ctx.check({x for x in words if x[:2] != '-I'} == set(want), 'everything is compiled with the options given now', (what, t, want))
                if 'felix' in which:
                    dirs = {root + '/w/src', *(['w/i'] if has.get('bincludes') else []), *ck.get('includes', [])}
                    ctx.check({x[2:] for x in words if x[:2] == '-I'} == dirs, 'everything is compiled with the options given now', (what, t, sorted(dirs)))
        now = (A, names, fl, has, str(ck))
        if last and not gone and last[1:] == now[1:]:
            for _, s in done:
                n = os.path.basename(s)[0]
                ctx.check(ctx.neg(ctx.eq(last[0][n], A[n])), 'only what changed is compiled again', (what, n))
        if not done:
            ctx.reach('nothing done')
        last = now
        ctx.reach(which)
        ctx.observe((what, [k for k, *_ in done]))
    ctx.sample(runs=runs)


def nm(ctx, n=3, cycles=True, runs=1, kinds=('T',)):
    """Objects are sorted by the symbols they need of each other."""
    w = World(ctx)
    setup(ctx, w, 'nm')
    last = None
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        A = [ctx.atom('run%d_%d' % (r, i), 0, 99999 if not ctx.symbolic else None) for i in range(n)]
        for i in range(n):
            write(w, '%d.o' % i, 'content %s\n' % tok(A[i]))
        # who needs a symbol of whom (what an object needs is in its contents)
        needs = last[1] if last else None
        if needs is None or not ctx.is_true(ctx.all([ctx.eq(x, y) for x, y in zip(last[0], A)])):
            needs = {(i, j): i != j and (cycles or i < j) and ctx.is_true(ctx.bool('run%d_%d_needs_%d' % (r, i, j))) for i in range(n) for j in range(n)}
        kind = [ctx.pick('run%d_kind%d' % (r, i), kinds) if len(kinds) > 1 else kinds[0] for i in range(n)]
        objs = ['w/src/%d.o' % i for i in range(n)]
        proc, c, tools, nm = start(w, 'fbuild.builders.nm')
        for i in range(n):
            tools.symbols[objs[i]] = [('U', ['s%d' % j for j in range(n) if needs[i, j]] + ['puts']), (kind[i], ['s%d' % i])]
        x = nm.Nm(c)
        for again in range(2):
            got = [str(o) for o in x.object_dependencies(objs)]
            what = (r, again, sorted(k for k in needs if needs[k]), kind)
            ctx.check(sorted(got) == objs, 'every object is listed once', (what, got))
            reach = {i: {j for j in range(n) if needs[i, j] and kind[j] not in 'Uw'} for i in range(n)}
            for _ in range(n):
                for i in reach:
                    for j in list(reach[i]):
                        reach[i] |= reach[j]
            for i in range(n):
                for j in (j for j in range(n) if needs[i, j] and kind[j] not in 'Uw'):
                    if i not in reach[j]:
                        ctx.check(got.index(objs[i]) < got.index(objs[j]), 'an object comes before those it needs', (what, got))
                        ctx.reach('ordered')
                    else:
                        ctx.reach('cycle')
        stop(proc)
        ctx.check(len(tools.log) in (0, n), 'objects are looked at once', (what, len(tools.log)))
        last = (A, needs)
        ctx.reach('nm')
        ctx.observe(what)
    ctx.sample(n=n)
