"""Options of Java and Scala: what is given reaches the compiler, in every build."""
import json
import os

from symx.world import World, tok, untok

from . import others
from .others import setup, start, stop, write


class Tools(others.Tools):
    """Compilers that write what they were told into what they make."""
    rejects = ''
    warn = False

    def run(self, cmd, cwd):
        tool = os.path.basename(cmd[0])
        if tool in ('javac', 'scalac'):
            return self.compiler(tool, cmd[1:])
        if tool == 'scala':
            return self.scala(cmd[1:])
        if tool == 'java' and '-verbose' in cmd:
            return b'x\n[Opened /opt/jdk 8/jre/lib/rt.jar]\n[Opened /other/jre/lib/y.jar]\n' if self.opened else b'nothing\n'
        return super().run(cmd, cwd)

    def refuse(self, args):
        if self.rejects and (self.rejects == 'all' or self.rejects in args):
            raise ValueError('bad flag')

    def scala(self, args):
        self.refuse(args)
        src = args[-1]
        assert src.endswith('.scala'), src
        text = self.get(src)
        self.log.append(('script', src))
        if 'absent' in text:
            raise ValueError('not found: value absent')
        if '-savecompiled' in args:
            self.put(src[:-len('.scala')] + '.jar', 'FLAGS %s\n%s' % (json.dumps(sorted(a for a in args[:-1] if a != '-savecompiled')), text))
        return b'ran', b''

    def compiler(self, tool, args):
        self.refuse(args)
        opts, flags, srcs, out, i = {}, [], [], '.', 0
        verbose = False
        while i < len(args):
            a = args[i]
            if a in ('-d', '-cp', '-sourcepath', '-target'):
                i += 1
                assert a not in opts, 'only the last of repeated options counts'
                if a == '-d':
                    out = args[i]
                else:
                    opts[a] = args[i]
            elif a.startswith('-target:'):
                opts['-target'] = a[8:]
            elif a == '-verbose':
                verbose = True
            elif a.startswith('-'):
                flags.append(a)
            else:
                assert a.endswith('.java' if tool == 'javac' else '.scala'), a
                srcs.append(a)
            i += 1
        if not os.path.isdir(out):
            raise FileNotFoundError(out)
        err = '[parsing started]\n'
        for s in srcs:
            text = self.get(s)
            if self.warn and text.startswith('class '):
                err += s + ':1: it is told\n'
            if 'absent' in text:
                raise self.Error(['javac'], b'', err.encode(), 1)
            n = text.split('\n')[0][len('class '):]
            if n:
                p = os.path.join(out, n + '.class')
                saw = ''.join(self.get(x) for x in opts.get('-cp', '').split(':') if x)
                self.put(p, 'MADE %s\n%s%s' % (json.dumps([opts, flags]), saw, text))
                err += '[wrote %s]\n' % p if tool == 'javac' else "[wrote '%s' to %s]\n" % (n, p)
                self.log.append(('compile', s))
        return b'', (err if verbose else ''.join(x + '\n' for x in err.split('\n') if not x.startswith('['))).encode()


class Log:
    def __init__(self):
        self.text = ''

    def write(self, msg, *a, **kw):
        self.text += msg

    def __getattr__(self, k):
        return lambda *a, **kw: None


CALL = ('flags', 'target', 'debug', 'classpaths', 'sourcepaths', 'optimize', 'buildroot')
BUILDER = ('bflags', 'btarget', 'bdebug', 'bclasspaths', 'bsourcepaths', 'debug_flags', 'boptimize')


def options(ctx, lang='java', given=('flags', 'bflags'), runs=2, broken=False, warn=False, jars=False):
    w = World(ctx)
    setup(ctx, w, 'javac', 'jar', 'java', 'scala', 'scalac')
    ext = '.' + lang
    last = None
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        # what the libraries are is in the classes
        C = {n: ctx.atom('run%d_%s' % (r, n), 0, 99999 if not ctx.symbolic else None) if jars else 5 for n in ('b.jar', 'c.jar')}
        for n in C:
            write(w, n, 'jar %s\n' % (tok(C[n]) if jars else 5))
        A = {n: ctx.atom('run%d_%s' % (r, n), 0, 99999 if not ctx.symbolic else None) for n in 'LM'}
        wrong = broken and ctx.is_true(ctx.bool('run%d_wrong' % r))
        for n in A:
            write(w, n + ext, 'class %s\ncontent %s\n' % (n, tok(A[n])) + 'absent\n' * (wrong and n == 'M'))
        has = {k: ctx.is_true(ctx.bool('run%d_%s' % (r, k))) for k in given}
        val = {k: has.get(k) for k in (*CALL, *BUILDER, 'cwd', 'quieter', 'stderr_quieter')}
        proc, c, tools, jm = start(w, 'fbuild.builders.' + lang)
        tools = c.execute = Tools(w, proc.fbuild.ExecutionError)
        tools.warn = warn
        log = c.logger = Log()
        bk = {}
        if val['bflags']: bk['flags'] = ['-Xb', '-Xc']
        if val['btarget']: bk['target'] = 7
        if val['bdebug']: bk['debug'] = True
        if val['bclasspaths']: bk['classpaths'] = ['w/src/b.jar']
        if val['bsourcepaths']: bk['sourcepaths'] = ['w/bsp']
        if val['debug_flags']: bk['debug_flags'] = ['-g:x', '-y']
        if val['boptimize']: bk['optimize'] = True
        builder = jm.Builder(c, **bk)
        ck, lk = {}, {}
        if val['flags']: ck['flags'] = ['-f']
        if val['target']: ck['target'] = 8
        if has.get('debug'): ck['debug'] = ctx.is_true(ctx.bool('run%d_debug_value' % r))
        if val['classpaths']: ck['classpaths'] = ['w/src/c.jar']
        if val['sourcepaths']: ck['sourcepaths'] = ['w/sp']
        if has.get('optimize'): ck['optimize'] = ctx.is_true(ctx.bool('run%d_optimize_value' % r))
        if val['buildroot']: ck['buildroot'] = lk['buildroot'] = 'w/other'
        if val['quieter']: ck['quieter'] = 1
        if val['stderr_quieter']: ck['stderr_quieter'] = 2
        root = 'w/other' if val['buildroot'] else 'w/build'
        cwd = {'cwd': root + '/w/src'} if val['cwd'] else {}
        tools.log.clear()
        failed = None
        srcs = ['w/src/' + n + ext for n in A]
        try:
            lib = builder.build_lib('lib.jar', srcs, ckwargs=ck, lkwargs=lk, **cwd)
            objs = [str(o) for o in builder.build_objects(srcs, **ck)]
        except proc.fbuild.ExecutionError as e:
            failed = e
        done = list(tools.log)
        stop(proc)
        what = (r, lang, sorted(k for k in has if has[k]), sorted(map(str, ck.items())))
        ctx.check((failed is not None) == bool(wrong), 'a build fails if a source is wrong', (what, str(failed)))
        told = [n for n in A if 'w/src/%s%s:1: it is told\n' % (n, ext) in log.text]
        ran = [n for n in A if ('compile', 'w/src/' + n + ext) in done or wrong and n == 'M']
        want = [] if val['quieter'] or val['stderr_quieter'] or not warn else ran
        ctx.check(told == want, 'what the compiler tells is shown', (what, told, want))
        ctx.check('[' not in log.text, 'what the compiler tells is shown', (what, log.text))
        if failed is not None:
            ctx.reach('failed')
            last = None
            continue
        ctx.check(str(lib) == root + '/lib.jar', 'outputs are in the build directory', (what, str(lib)))
        ctx.check(objs == ['%s/w/src/%s.class' % (root, n) for n in A], 'outputs are in the build directory', (what, objs))
        dflags = ['-g:x', '-y'] if val['debug_flags'] else ['-g'] if lang == 'java' else ['-g:vars']
        flags = dflags * bool(ck.get('debug', val['bdebug'])) + bk.get('flags', []) + ck.get('flags', []) + ['-optimise'] * bool(ck.get('optimize', val['boptimize']))
        opts = {}
        for k, n in (('-cp', 'classpaths'), ('-sourcepath', 'sourcepaths')):
            if bk.get(n) or ck.get(n):
                opts[k] = ':'.join(bk.get(n, []) + ck.get(n, []))
        if 'target' in bk or 'target' in ck:
            opts['-target'] = str(ck.get('target', bk.get('target')))
        used = []
        with open(lib) as f:
            got = others.members(f.read())
        ctx.check([n for n, _ in got] == [('' if cwd else 'w/src/') + n + '.class' for n in A], 'a library has the classes there are now', (what, [n for n, _ in got]))
        for (_, text), n in zip(got, A):
            line, _, rest = text.partition('\n')
            gopts, gflags = json.loads(line[len('MADE '):])
            ctx.check(gopts == opts and sorted(gflags) == sorted(flags), 'everything is compiled with the options given now', (what, gopts, opts, gflags, flags))
            saw, _, rest = rest.rpartition('class ')
            ctx.check(lambda: ctx.eq(untok(rest), A[n]), 'what is built is what the sources say', (what, n, rest))
            if jars:
                used = [x[len('w/src/'):] for x in opts.get('-cp', '').split(':') if x]
                saw = saw.split('\n')[:-1]
                ctx.check(len(saw) == len(used), 'what is built is what the sources say', (what, n, rest))
                for x, y in zip(saw, used):
                    ctx.check(lambda: ctx.eq(untok(x), C[y]), 'a program is compiled with the libraries there are now', (what, n, x, y))
        now = ({**A, **C}, has, str(ck), str(bk))
        if last and last[1:] == now[1:]:
            for k, s in done:
                ns = [os.path.basename(s)[0]] if k == 'compile' else list(A)
                ctx.check(lambda: ctx.any([*(ctx.neg(ctx.eq(last[0][n], A[n])) for n in ns), *(ctx.neg(ctx.eq(last[0][y], C[y])) for y in used if jars)]), 'only what changed is compiled again', (what, k, s))
        if not done:
            ctx.reach('nothing done')
        last = now
        ctx.reach(lang + ' options')
        ctx.observe((what, [k for k, *_ in done]))
    ctx.sample(runs=runs)


def refused(ctx, lang='java'):
    """A compiler that does not work, or does not know its flags, is refused."""
    w = World(ctx)
    setup(ctx, w, 'javac', 'jar', 'java', 'scala', 'scalac')
    dflag = '-g' if lang == 'java' else '-g:vars'
    rejects = ctx.pick('rejects', ['', 'all', dflag, *(['-optimise'] if lang == 'scala' else [])])
    uses = ctx.is_true(ctx.bool('uses'))
    proc, c, tools, jm = start(w, 'fbuild.builders.' + lang)
    tools = c.execute = Tools(w, proc.fbuild.ExecutionError)
    tools.rejects = rejects
    kw = {} if uses else dict(debug_flags=[])
    if lang == 'java':
        make = lambda: jm.Javac(c, **kw)
    else:
        if not uses:
            kw['optimize_flags'] = []
        make = lambda: jm.Scalac(c, **kw)
    failed = None
    try:
        make()
    except proc.fbuild.ConfigFailed as e:
        failed = e
    stop(proc)
    ctx.check((failed is not None) == (rejects == 'all' or bool(rejects) and uses), 'a compiler that does not work is refused', (lang, rejects, uses))
    ctx.reach('refused' if failed else 'accepted')
    ctx.sample(rejects=rejects)


def running(ctx, lang='java', runs=2):
    """Classes, libraries and scripts are run."""
    w = World(ctx)
    setup(ctx, w, 'javac', 'jar', 'java', 'scala', 'scalac')
    own = ctx.is_true(ctx.bool('own'))
    more = ctx.is_true(ctx.bool('more'))
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        A = ctx.atom('run%d' % r, 0, 99999 if not ctx.symbolic else None)
        write(w, 's.scala', 'content %s\n' % tok(A))
        proc, c, tools, jm, java = start(w, 'fbuild.builders.' + lang, 'fbuild.builders.java')
        tools = c.execute = Tools(w, proc.fbuild.ExecutionError)
        tools.opened = own
        builder = jm.Builder(c)
        cp = ['w/a.jar'] if more else []
        builder.run_class('Main', classpaths=cp)
        want = cp + ([os.path.realpath('w/bin/scalac')[:-len('bin/scalac')] + 'lib/scala-library.jar'] if lang == 'scala' else [])
        ctx.check(tools.log[-1] == ('java', '-cp', ':'.join(want), 'Main'), 'a class is run with its libraries', list(tools.log[-1])[2:3] if lang == 'java' else lang)
        java.Java(c, classpaths=['w/j.jar'] * own).run_class('Main', classpaths=cp)
        ctx.check(tools.log[-1] == ('java', '-cp', ':'.join(['w/j.jar'] * own + cp), 'Main'), 'a class is run with its libraries', tools.log[-1])
        builder.run_jar('w/x.jar')
        ctx.check(tools.log[-1] == ('java', '-jar', 'w/x.jar'), 'a library is run', tools.log[-1])
        home = builder.get_java_home()
        ctx.check(home == '/opt/jdk 8' if own else home is None, 'the home of Java is found', str(home))
        if lang == 'scala':
            fl = dict(flags=['-x']) if more else {}
            dst, out, err = builder.run_script('w/src/s.scala', **fl)
            ctx.check(out == b'ran' and tools.log[-1] == ('script', 'w/build/w/src/s.scala'), 'a script is run', tools.log[-1])
            ctx.check(str(dst) == 'w/build/w/src/s.jar', 'outputs are in the build directory', str(dst))
            with open(dst) as f:
                line, _, rest = f.read().partition('\n')
            ctx.check(json.loads(line[6:]) == fl.get('flags', []), 'everything is compiled with the options given now', line)
            ctx.check(lambda: ctx.eq(untok(rest), A), 'what is built is what the sources say', rest)
            ctx.check(not os.path.exists('w/src/s.jar'), 'outputs are in the build directory', 'beside the source')
        stop(proc)
        ctx.reach('running ' + lang)
    ctx.sample(own=own)
