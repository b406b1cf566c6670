"""Building C projects with a modelled compiler: histories of changes."""
import io
import os
import re
import shutil
import sys
import types

from symx import fresh
from symx.world import World, tok, untok

MAIN = 'int main'


def escape(name):
    """A file name as gcc writes it to a makefile."""
    name = re.sub(r'(\\*)([ \t])', r'\1\1\\\2', name)
    return name.replace('$', '$$').replace('#', '\\#')


class Compiler:
    """The tools: what they read and write, and how they fail."""

    def __init__(self, w, ExecutionError):
        self.w = w
        self.Error = ExecutionError
        self.log = []       # (what, source or output)
        self.copy = True        # programs contain what is in shared libraries
        self.links = []     # (output, libraries in their order)

    def __call__(self, cmd, msg1=None, msg2=None, *, cwd=None, **kw):
        cmd = [str(c) for c in cmd]
        try:
            return self.run(cmd, cwd), b''
        except (OSError, LookupError) as e:
            raise self.Error(cmd, b'', repr(e).encode(), 1)

    def put(self, path, text):
        path = str(path)
        os.path.isdir(os.path.dirname(path) or ".") or self.missing(path)
        with open(path, 'w') as f:
            f.write(text)
        rel = os.path.relpath(os.path.join(os.environ['SYMX_SCRATCH'], path), self.w.dir)
        if not rel.startswith('..'):
            self.w.touch(rel, self.w.now)

    def missing(self, path):
        raise FileNotFoundError(path)

    def get(self, path):
        with open(path) as f:
            return f.read()

    def preprocess(self, path, includes, deps):
        if path in deps:
            return ''
        deps.append(path)
        out = ''
        for line in self.get(path).splitlines():
            m = re.match(r'#include "(.*)"', line)
            if m:
                for d in [os.path.dirname(path)] + includes:
                    h = os.path.join(d, m.group(1))
                    if os.path.exists(h):
                        out += self.preprocess(h, includes, deps)
                        break
                else:
                    raise FileNotFoundError(m.group(1))
            elif not re.match(r'\s*#include <', line):
                out += line + '\n'
        return out

    def run(self, cmd, cwd):
        cwd = cwd and str(cwd)
        tool = os.path.basename(cmd[0])
        args = cmd[1:]
        if tool == 'uname':
            return b'Linux\n'
        if tool == 'gcc':
            if args == ['--version']:
                return b'gcc (Model) 9.1\n'
            return self.gcc(args, cwd)
        if tool == 'ar':
            # members are added to an archive that exists, or replaced
            flags, dst, srcs = args[0], args[1], args[2:]
            assert 'r' in flags
            members = {}
            if os.path.exists(dst):
                for n, t in re.findall(r'<member (.*?)>\n(.*?)</member>\n', self.get(dst), re.S):
                    members[n] = t
            for s in srcs:
                members[os.path.basename(s)] = self.get(s)
            self.put(dst, ''.join('<member %s>\n%s</member>\n' % x for x in members.items()))
            self.log.append(('ar', dst))
            return b''
        if tool == 'ranlib':
            return b''
        assert self.get(cmd[0]).startswith('EXE'), cmd
        return b'5'

    def gcc(self, args, cwd):
        flags, srcs, out, dep, includes, libdirs, libs = [], [], None, None, [], [], []
        i = 0
        while i < len(args):
            a = args[i]
            if a == '-o':
                i += 1
                out = args[i]
            elif a == '-MF':
                i += 1
                dep = args[i]
            elif a == '-MMD':
                pass
            elif a.startswith('-I'):
                includes.append(a[2:])
            elif a.startswith('-L'):
                libdirs.append(a[2:])
            elif a.startswith('-l'):
                libs.append(a[2:])
            elif a.startswith('-'):
                flags.append(a)
            else:
                srcs.append(a)
            i += 1
        if out is None:
            out = os.path.join(cwd or '.', 'a.out')
        flags = [f for f in flags]
        if '-c' in flags:
            src, = srcs
            deps = []
            text = self.preprocess(src, includes, deps)
            kept = ' '.join(sorted(f for f in flags if f[:2] in ('-D', '-O', '-g', '-f', '-W')))
            self.put(out, 'OBJECT %s\n%s' % (kept, text))
            self.log.append(('compile', src))
            if dep:
                # lines are wrapped
                with open(dep, 'w') as f:
                    f.write(escape(out) + ':' + ''.join((' ' if i < 2 else ' \\\n ') + escape(d) for i, d in enumerate(deps)) + '\n')
            return b''
        text, linked = '', []
        for s in srcs:
            text += self.get(s) if not s.endswith('.c') else self.preprocess(s, includes, [])
        for l in libs:
            for d in libdirs:
                for e in ('.so', '.dylib', '.a'):
                    p = os.path.join(d, 'lib' + l + e)
                    if os.path.exists(p):
                        break
                else:
                    continue
                break
            else:
                raise FileNotFoundError('lib' + l)
            if self.copy or p.endswith('.a'):
                text += self.get(p)
            linked.append(p)
        self.links.append((out, linked))
        self.put(out, ('LIB' if '-shared' in flags or '-dynamiclib' in flags else 'EXE') + '\n' + text)
        self.log.append(('link', out))
        return b''


class InlineScheduler:
    threadcount = 1

    def map(self, f, srcs):
        return [f(s) for s in srcs]

    def shutdown(self):
        pass


class Log:
    def __getattr__(self, k):
        return lambda *a, **kw: None


def project(ctx, runs=2, kind='static', dir='', headers=('x.h', 'y.h'), change='both', macros=True, members=True, outputs=True, nested=False, broken=False):
    """After every build, what was built is what the sources say now."""
    w = World(ctx)
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    for t in ('gcc', 'ar', 'ranlib', 'uname'):
        w.write('bin/' + t, None)
    os.environ['PATH'] = 'w/bin'
    src = 'w/src' + ('/' + dir if dir else '')
    names = ['a.c', 'b.c', 'c.c'] if members else ['a.c', 'b.c']
    last = None
    contents = {}
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        # ---- the sources change ----
        new = {}
        for n in names + list(headers):
            if r and (change == 'headers' and n in names or change == 'sources' and n in headers):
                new[n] = contents[n]
            else:
                new[n] = ctx.atom('run%d_%s' % (r, n), 0, 99999 if not ctx.symbolic else None)
        contents = new
        included = {}
        text = {}
        for n in names:
            included[n] = [h for h in headers if ctx.is_true(ctx.bool('run%d_%s_includes_%s' % (r, n, h)))] if n == names[0] else list(headers[:1])
            text[n] = 'content %s\n' % tok(contents[n]) + ''.join('#include "%s"\n' % h for h in included[n])
        for h in headers:
            text[h] = 'content %s\n' % tok(contents[h])
            if nested and h == headers[0]:
                text[h] += '#include "%s"\n' % headers[1]
        for n in text:
            p = os.path.join(src, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            # (unless it was looked at in the second it was written, a change has another time)
            with open(p, 'w') as f:
                f.write(text[n])
            w.touch(os.path.relpath(p, 'w'), w.now)
        wrong = broken and ctx.pick('run%d_wrong' % r, ['', names[0], names[1]])
        if wrong:
            with open(os.path.join(src, wrong), 'a') as f:
                f.write('#include "absent.h"\n')
        flags = ['M'] if macros and ctx.is_true(ctx.bool('run%d_macro' % r)) else []
        inlib = ['b.c']
        if members:
            inlib = ctx.pick('run%d_members' % r, [['b.c', 'c.c'], ['b.c'], ['c.c']])
        # ---- outputs may be lost ----
        lost = ''
        if r and outputs:
            lost = ctx.pick('run%d_lost' % r, ['', '.o', '.a', 'prog'])
            for d, _, fs in os.walk('w/build'):
                for f in fs:
                    if lost and f.endswith((lost, lost + 's', '.so') if lost == '.a' else (lost, lost + 's')) and 'temp' not in f:
                        os.remove(os.path.join(d, f))
        # ---- a build ----
        proc = w.process('pickle')
        c = proc.ctx
        c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
        c.scheduler = InlineScheduler()
        tools = Compiler(w, proc.fbuild.ExecutionError)
        c.execute = tools
        os.makedirs('w/build/.tmp', exist_ok=True)
        gcc, temp = fresh.load('fbuild.builders.c.gcc', 'fbuild.temp')
        temp.set_default_tempdir('w/build/.tmp')
        proc.connect()
        builder = getattr(gcc, kind)(c, 'gcc')
        configured = len(tools.log)
        lib = exe = failed = None
        try:
            lib = builder.build_lib('l', [os.path.join(src, n) for n in inlib], macros=flags)
            exe = builder.build_exe('prog', [os.path.join(src, 'a.c')], libs=[lib], macros=flags)
        except proc.fbuild.ExecutionError as e:
            failed = e
        proc.close()
        shutil.rmtree('w/build/.tmp')
        expected = bool(wrong) and wrong in ['a.c'] + inlib
        ctx.check((failed is not None) == expected, 'a build fails if a source is wrong', (r, wrong, failed and str(failed)))
        if failed is not None:
            ctx.reach('failed')
            last = None
            continue
        # ---- what it should be ----
        def expand(n, seen):
            if n in seen:
                return []
            seen.append(n)
            out = [contents[n]]
            for h in included.get(n, []) if n in included else (list(headers[1:2]) if nested and n == headers[0] else []):
                out += expand(h, seen)
            return out
        want = [contents_of for n in ['a.c'] + inlib for contents_of in expand(n, [])]
        what = (r, inlib, flags, included, lost, dir, list(headers))
        with open(exe) as f:
            text_exe = f.read()
        got = re.findall(r'SYM#\d{5}#', text_exe)
        ctx.check(len(got) == len(want), 'what is built is what the sources say', (what, text_exe))
        for g, x in zip(got, want):
            ctx.check(ctx.eq(untok(g), x), 'what is built is what the sources say', (what, text_exe))
        objs = re.findall(r'OBJECT(.*)\n', text_exe)
        ctx.check(len(objs) == 1 + len(inlib) and all((' -DM' in o) == bool(flags) for o in objs), 'everything is compiled with the options given now', (what, objs))
        ctx.check(os.path.dirname(exe).startswith('w/build') and os.path.dirname(lib).startswith('w/build'), 'outputs are in the build directory')
        done = tools.log[configured:]
        now = dict(want={n: expand(n, []) for n in names}, included=included, inlib=inlib, flags=flags)
        if last:
            # ---- and nothing else is done ----
            compiled = [os.path.basename(x) for k, x in done if k == 'compile']
            ctx.check(len(set(compiled)) == len(compiled), 'a source is compiled once', (what, compiled))
            for n in compiled:
                was = n == 'a.c' or n in last['inlib']
                same = was and last['flags'] == flags and len(last['want'][n]) == len(now['want'][n]) and last['included'][n] == included[n] and lost != '.o'
                if same:
                    ctx.check(ctx.neg(ctx.all([ctx.eq(x, y) for x, y in zip(last['want'][n], now['want'][n])])), 'only what changed is compiled again', (what, n))
                ctx.reach('compiled again')
            if not compiled:
                ctx.reach('nothing compiled')
            if not compiled and last['inlib'] == inlib and not lost:
                ctx.check(not done, 'nothing is linked if nothing was compiled', (what, done))
        ctx.reach('built')
        last = now
        ctx.observe((what, [k for k, _ in done]))
    ctx.sample(runs=runs)


def chain(ctx, runs=2, kinds=('static', 'static'), extra=False, dirs=('', ''), lost=False, edges=None, given='call'):
    """Libraries that use libraries: l0 is used by l1, both (or l1 alone) by
    the program."""
    edges = edges and [tuple(e) for e in edges]
    w = World(ctx)
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    for t in ('gcc', 'ar', 'ranlib', 'uname'):
        w.write('bin/' + t, None)
    os.environ['PATH'] = 'w/bin'
    n = len(kinds)
    dirs = [*dirs, *[''] * n][:n]
    contents, last, log = {}, None, None
    names = ['l%d.c' % i for i in range(n)] + ['main.c']
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        new = {}
        for i, x in enumerate(names):
            new[x] = ctx.atom('run%d_%s' % (r, x), 0, 99999 if not ctx.symbolic else None)
        contents = new
        os.makedirs('w/src', exist_ok=True)
        for x in names:
            with open('w/src/' + x, 'w') as f:
                f.write('content %s\n' % tok(contents[x]))
            w.touch('src/' + x, w.now)
        # who uses whom: i uses j < i
        uses = {i: [j for j in range(i) if (ctx.is_true(ctx.bool('run%d_%d_uses_%d' % (r, i, j))) if edges is None else (i, j) in edges)] for i in range(n)}
        uses[n] = [j for j in range(n) if j == n - 1 or extra and ctx.is_true(ctx.bool('run%d_main_uses_%d' % (r, j)))]
        gone = ''
        if r and lost:
            gone = ctx.pick('run%d_lost' % r, ['', *('l%d' % i for i in range(n))])
            for d, _, fs in os.walk('w/build'):
                for f in fs:
                    if gone and f.startswith('lib' + gone + '.'):
                        os.remove(os.path.join(d, f))
        proc = w.process('pickle')
        c = proc.ctx
        c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
        c.scheduler = InlineScheduler()
        tools = Compiler(w, proc.fbuild.ExecutionError)
        tools.copy = False
        runs_with = []

        def execute(cmd, *a, runtime_libpaths=(), **kw):
            if str(cmd[0]).startswith('w/build') and not '.tmp' in str(cmd[0]):
                runs_with.append([str(x) for x in runtime_libpaths])
            return tools(cmd, *a, **kw)
        c.execute = execute
        os.makedirs('w/build/.tmp', exist_ok=True)
        gcc, temp = fresh.load('fbuild.builders.c.gcc', 'fbuild.temp')
        temp.set_default_tempdir('w/build/.tmp')
        proc.connect()
        builders = {k: getattr(gcc, k)(c, 'gcc') for k in sorted(set(kinds) | {'static'})}
        configured = len(tools.log)
        libs = []
        for i, k in enumerate(kinds):
            libs.append(builders[k].build_lib((dirs[i] + '/' if dirs[i] else '') + 'l%d' % i, ['w/src/l%d.c' % i], libs=[libs[j] for j in uses[i]]))
        mine = [libs[j] for j in uses[n]]
        if len(mine) > 1 and extra and ctx.is_true(ctx.bool('run%d_reversed' % r)):
            mine.reverse()
        if given == 'call':
            exe = builders['static'].build_exe('prog', ['w/src/main.c'], libs=mine)
        else:
            exe = gcc.static(c, 'gcc', libs=mine).build_exe('prog', ['w/src/main.c'])
        builders['static'].run([exe])
        proc.close()
        shutil.rmtree('w/build/.tmp')
        what = (r, kinds, uses, gone)

        def closure(js):
            out = []
            for j in js:
                for x in [j, *closure(uses[j])]:
                    if x not in out:
                        out.append(x)
            return out
        need = closure(uses[n])
        with open(exe) as f:
            text = f.read()
        for j in need:
            if kinds[j] == 'shared':
                text += tools.get(libs[j])
        # every library that is needed is in the program (or found when it runs) as it is now
        got = re.findall(r'SYM#\d{5}#', text)
        for x in ['main.c'] + ['l%d.c' % j for j in need]:
            ctx.check(lambda: ctx.any([ctx.eq(untok(g), contents[x]) for g in got]), 'what is built is what the sources say', (what, x, text))
        # nothing is in it that isn't there any more
        for g in got:
            ctx.check(lambda: ctx.any([ctx.eq(untok(g), contents[x]) for x in ['main.c'] + ['l%d.c' % j for j in need]]), 'what is built is what the sources say', (what, text))
        # a static library comes before those it uses
        link = [x for x in tools.links if x[0] == str(exe)]
        if link:
            order = link[-1][1]
            ctx.check(all(str(libs[i]) in order for i in need), 'libraries that libraries need are linked', (what, order))
            for i in need:
                for j in uses[i]:
                    ctx.check(order.index(str(libs[i])) < order.index(str(libs[j])), 'a library comes before those it needs', (what, order))
            ctx.check(len(order) == len(set(order)), 'a library is linked once', (what, order))
            ctx.reach('linked')
        else:
            ctx.reach('not linked')
        here = {os.path.dirname(str(libs[j])) for j in need if given == 'call' and kinds[j] == 'shared'}
        ctx.check(here <= {os.path.abspath(p) if os.path.isabs(p) else p for p in runs_with[-1]}, 'a program finds its libraries when it runs', (what, sorted(here), runs_with))
        done = [x for x in tools.log[configured:] if '.tmp' not in x[1]]
        if last and not gone and last[1] == uses:
            ctx.check(lambda: ctx.any([not done, *(ctx.neg(ctx.eq(last[0][x], contents[x])) for x in names)]), 'nothing is done if nothing has changed', (what, done))
        last = (contents, uses)
        ctx.reach('built')
        ctx.observe((what, [k for k, _ in done]))
    ctx.sample(runs=runs, kinds=kinds)
