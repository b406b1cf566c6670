"""Configuration tests: what a C compiler, which is modelled, can do."""
import os
import re
import shutil
import sys
import types

from symx import fresh
from symx.world import World
from . import cbuild

KEYWORDS = set('int char void long short unsigned signed float double struct union enum typedef return const static extern sizeof main if else for while offsetof printf size_t'.split())


class Facts:
    """What there is.  (Decided when it is asked for.)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.known = {}

    def pick(self, name, options):
        if name not in self.known:
            self.known[name] = self.ctx.pick(name, list(options))
        return self.known[name]

    def true(self, name):
        if name not in self.known:
            self.known[name] = self.ctx.is_true(self.ctx.bool(name))
        return self.known[name]


DECLARED = {'f': ('int', ['int', 'char*']), 'g': ('void', []), 'k': ('int', [])}
NAMES = {'f': 'function', 'g': 'function', 'k': 'function', 'M': 'macro', 'N': 'macro', 't': 'type', 'u': 'type', 'int': 'type', 's': 'struct', 'r': 'struct', 'tt': 'type', 'MM': 'macro', 'v': 'variable', 'w': 'variable'}
MEMBERS = {'s': ('a', 'b'), 'r': ('a',)}


class Toolchain(cbuild.Compiler):
    """Compilation of test programs."""

    def setup(self, facts):
        self.facts = facts
        self.runs = []
        self.testing = False        # (not while the builder is configured)
        return self

    def declared(self, name, headers):
        """Is it declared in one of the headers?"""
        return any(self.facts.true('%s declares %s' % (h, name)) for h in headers)

    def __call__(self, cmd, msg1=None, msg2=None, *, cwd=None, input=None, timeout=None, **kw):
        self.input, self.timeout = input, timeout
        return super().__call__(cmd, msg1, msg2, cwd=cwd, **kw)

    def preprocess(self, path, includes, deps):
        text = self.get(path)
        if not self.testing:
            return super().preprocess(path, includes, deps)
        self.runs.append('compile')
        deps.append(path)
        headers = re.findall(r'^\s*#\s*include\s*<(.*?)>', text, re.M)
        for h in headers:
            if not h.startswith('std') and not self.facts.true('there is %s' % h):
                self.missing(h)
        headers = [h for h in headers if not h.startswith('std')] + ['the compiler']
        for m in re.findall(r'^\s*#\s*ifndef\s+(\w+)', text, re.M):
            if not self.declared(m, headers):
                self.missing(m)
        for m in re.findall(r'#\s*if\s+!\s*defined\s*\(?\s*(\w+)', text):
            if not self.declared(m, headers):
                self.missing(m)
        code = re.sub(r'^\s*#.*', '', text, flags=re.M)
        m = re.search(r'program (\w+)', code)
        if m:
            if self.facts.pick('program %s' % m.group(1), ['works', 'is wrong', 'cannot be linked', 'fails', 'is slow']) == 'is wrong':
                self.missing(m.group(1))
            return 'PROGRAM %s\n' % m.group(1)
        strings = []
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: (strings.append(m.group(0)), ' STR%d ' % (len(strings) - 1))[1], code)
        tokens = re.findall(r'\w+|[^\w\s]', code)
        local, used, members = {'type', 'mem'}, [], []
        for i, t in enumerate(tokens):
            if not re.match(r'[A-Za-z_]', t) or t.startswith('STR'):
                continue
            prev = tokens[i - 1] if i else ''
            after = tokens[i + 1] if i + 1 < len(tokens) else ''
            if prev == '.':
                members.append((tokens[i - 2], t))
            elif t in KEYWORDS:
                if t not in ('int', 'main'):
                    continue
            elif prev == 'struct' and after == '{':
                local.add(t)
            elif (re.match(r'\w', prev) and prev not in ('return', 'struct') or prev == '*') and after in (';', '=', ',', ')', '(', '['):
                local.add(t)
            elif t not in local:
                used.append((prev, t, after, i))
        symbols = []
        for prev, t, after, i in used:
            if t in KEYWORDS:
                continue
            kind = NAMES.get(t)
            if kind is None or not self.declared(t, headers):
                self.missing(t)
            if (kind == 'struct') != (prev == 'struct') or kind == 'macro':
                self.missing(t)
            if kind == 'function':
                if after != '(':
                    self.missing(t)
                depth, n, j = 0, 0, i + 1
                while True:
                    depth += {'(': 1, ')': -1}.get(tokens[j], 0)
                    if depth == 0:
                        break
                    n += tokens[j] == ',' and depth == 1
                    j += 1
                n = n + 1 if j > i + 2 else 0
                if n != len(DECLARED[t][1]):
                    self.missing(t)
                # (its result cannot be used if it has none)
                if DECLARED[t][0] == 'void' and tokens[i - 1] == '=':
                    self.missing(t)
                symbols.append(t)
            elif kind == 'variable':
                symbols.append(t)
        structs = [t for prev, t, _, _ in used if prev == 'struct']
        for _, m in members:
            if not any(m in MEMBERS.get(s, ()) for s in structs):
                self.missing(m)
        out = ''
        for m in re.finditer(r'printf\s*\(\s*STR(\d+)\s*,(.*?)\)\s*;', code, re.S):
            fmt = strings[int(m.group(1))][1:-1].replace('\\n', '\n')
            args, depth, cur = [], 0, ''
            for ch in m.group(2) + ',':
                depth += {'(': 1, ')': -1}.get(ch, 0)
                if ch == ',' and depth == 0:
                    args.append(cur)
                    cur = ''
                else:
                    cur += ch
            name = re.search(r'typedef\s+(.*?)\s+type\s*;', code)
            out += re.sub(r'%[lz]*[diu]', lambda _, a=iter(args): self.value(next(a), name.group(1)), fmt)
        return 'SYMBOLS %s\nPRINTS %s.\n' % (' '.join(symbols), out.encode().hex())

    def value(self, e, t):
        if 'sizeof' in e:
            return str(self.facts.pick('size of %s' % t, (8, 12)))
        if 'offsetof' in e or 'lignof' in e:
            return str(self.facts.pick('alignment of %s' % t, (4, 16)))
        m = re.search(r'[^<>]([<>])[^<>]', e)
        signed = self.facts.true('%s is signed' % t)
        return str(int(signed if m.group(1) == '<' else not signed))

    def gcc(self, args, cwd):
        self.flags = [a for a in args if a.startswith('-')]
        if '-c' in args:
            return super().gcc(args, cwd)
        libs = [a[2:] for a in args if a.startswith('-l')]
        args = [a for a in args if a not in ('-lm', '-lq')]
        super().gcc(args, cwd)
        text = self.get(args[args.index('-o') + 1]) if '-o' in args else ''
        if 'SYMBOLS' in text or 'PROGRAM' in text:
            self.runs.append(('link', sorted(libs), sorted(a for a in self.flags if a.startswith('-f')), sorted(a[2:] for a in self.flags if a.startswith('-L'))))
        for s in re.findall(r'^SYMBOLS (.*)$', text, re.M):
            for x in s.split():
                where = self.facts.pick('%s is in' % x, ['libc', 'libm', ''])
                if where == '' or where == 'libm' and 'm' not in libs:
                    self.missing(x)
        for p in re.findall(r'^PROGRAM (.*)$', text, re.M):
            if self.facts.pick('program %s' % p, ['works', 'is wrong', 'cannot be linked', 'fails', 'is slow']) == 'cannot be linked':
                self.missing(p)
        return b''

    def run(self, cmd, cwd):
        if os.path.basename(cmd[0]) in ('gcc', 'ar', 'ranlib', 'uname'):
            return super().run(cmd, cwd)
        text = self.get(cmd[0])
        assert text.startswith('EXE'), cmd
        m = re.search(r'^PROGRAM (\w+)$', text, re.M)
        if m:
            self.runs.append('run')
            state = self.facts.pick('program %s' % m.group(1), ['works', 'is wrong', 'cannot be linked', 'fails', 'is slow'])
            if state == 'fails':
                raise self.Error(cmd, b'x', b'', 3)
            if state == 'is slow' and self.timeout is not None and self.timeout < 100:
                raise self.TimedOut(cmd, b'', b'', -9)
            return self.facts.pick('%s prints for %r' % (m.group(1), self.input), [b'x\n', b''])
        m = re.search(r'^PRINTS (\w*)\.$', text, re.M)
        if m:
            self.runs.append('run')
            return bytes.fromhex(m.group(1))
        return b'5'


# (kind of test, positional arguments, keyword arguments)
VARIANTS = {
    'header': [('header', ('h.h',), {}), ('header', ('g.h',), {})],
    'function': [('function', ('int', 'int', 'char*'), {}), ('function', ('int', 'int', 'char*'), {'default_args': ('1', '0')}), ('function', ('int', 'int'), {}),
                 ('function', ('void', 'int', 'char*'), {})],
    'names': [('function', ('int', 'int', 'char*'), {'name': 'f'}), ('function', ('void', 'void'), {'name': 'g'}), ('function', ('int', 'void'), {'name': 'k'}), ('function', ('int',), {'name': 'g'})],
    'macro': [('macro', (), {}), ('macro', (), {'name': 'N'})],
    'type': [('type', (), {}), ('type', (), {'name': 'u'}), ('int_type', (), {})],
    'int_type': [('int_type', (), {}), ('int_type', (), {'name': 'u'}), ('int_type', (), {'name': 'int'})],
    'struct': [('struct', (('int', 'a'), ('char*', 'b')), {}), ('struct', (('int', 'c'),), {}), ('struct', (('int', 'a'), ('int', 'b')), {'name': 'struct r'}), ('struct', (('int', 'a'),), {'name': 'struct r'})],
    'variable': [('variable', (), {}), ('variable', (), {'name': 'w'}), ('macro', (), {})],
    'program': [('function', ('int',), {'test': 'int main() { program p; }'}), ('function', ('int',), {'test': 'int main() { program q; }'})],
    'timeout': [('function', ('int',), {'test': 'int main() { program p; }', 'timeout': 200}), ('macro', (), {'test': 'int main() { program p; }', 'timeout': 1})],
    'output': [(k, a, dict(o, test='int main() { program p; }')) for o in ({'stdout': b'x\n'}, {'stdout': b''}, {'stdin': b'i'}, {'stdin': b'i', 'stdout': b'x\n'}) for k, a in (('variable', ()),)],
    'outputs': [(k, a, dict(stdout=b'x\n', test='int main() { program p; }')) for k, a in (('header', ('h.h',)), ('function', ('int',)), ('macro', ()), ('struct', (('int', 'a'),)), ('variable', ()))],
}
KEY = {'function': 'f', 'names': 'x', 'macro': 'M', 'type': 't', 'int_type': 't', 'struct': 's', 'variable': 'v', 'program': 'p', 'timeout': 'p', 'output': 'p', 'outputs': 'p', 'header': 'x'}
RESULT = {'function': 'Function', 'macro': 'Macro', 'type': 'Type', 'int_type': 'IntType', 'struct': 'Struct', 'variable': 'Variable'}


def should(facts, variant, key, header, libs):
    """What the test should tell."""
    kind, args, kw = variant
    name = kw.get('name', ('struct ' if kind == 'struct' else '') + key)
    if header is not None and kind != 'header' and not facts.true('there is %s' % header):
        return None
    headers = ([header] if header is not None else []) + ['the compiler']

    def declared(n):
        return any(facts.true('%s declares %s' % (h, n)) for h in headers)

    def linked(n):
        return facts.pick('%s is in' % n, ['libc', 'libm', '']) in ('libc',) + (('libm',) if 'm' in libs else ())
    test = kw.get('test')
    if test:
        p = re.search(r'program (\w)', test).group(1)
        state = facts.pick('program %s' % p, ['works', 'is wrong', 'cannot be linked', 'fails', 'is slow'])
        if state not in ('works', 'is slow') or state == 'is slow' and kw.get('timeout', 200) < 100:
            return None
        said = facts.pick('%s prints for %r' % (p, kw.get('stdin')), [b'x\n', b''])
        if 'stdout' in kw and kw['stdout'] != said:
            return None
    elif kind == 'header':
        if not facts.true('there is %s' % args[0]):
            return None
    elif kind == 'function':
        params = [a for a in args[1:] if a != 'void'] if not kw.get('default_args') else kw['default_args']
        ret, declares = DECLARED[name]
        if not declared(name) or len(params) != len(declares) or ret == 'void' and args[0] != 'void' or not linked(name):
            return None
    elif kind == 'macro':
        if not declared(name):
            return None
    elif kind in ('type', 'int_type'):
        if name != 'int' and not declared(name):
            return None
    elif kind == 'struct':
        s = name.split()[1]
        if not declared(s) or not all(m in MEMBERS[s] for _, m in args):
            return None
    elif kind == 'variable':
        if not declared(name) or not linked(name):
            return None
    if kind == 'header':
        return args[0]
    out = [RESULT[kind]]
    if kind in ('type', 'int_type'):
        out += [facts.pick('alignment of %s' % name, (4, 16)), facts.pick('size of %s' % name, (8, 12))]
        if kind == 'int_type':
            out.append(facts.true('%s is signed' % name))
    elif kind == 'function' or kind == 'struct':
        out += list(args)
    return out


def plain(v):
    """A result as should() tells it."""
    if v is None or isinstance(v, str):
        return v
    kind = type(v).__name__
    return [kind] + {'Function': lambda: [v.return_type, *v.args], 'Macro': list, 'Variable': list, 'Type': lambda: [v.alignment, v.size],
                     'IntType': lambda: [v.alignment, v.size, v.signed], 'Struct': lambda: list(v.members)}[kind]()


def module(w, name, lang, header, fields):
    text = 'import fbuild.config.%s as c\n\nclass T(c.Test):\n    pass\n' % lang
    if header is not None:
        text += '    header = c.header_test(%r)\n' % header
    for k, (kind, args, kw) in fields:
        text += '    %s = c.%s_test(%s)\n' % (k, kind, ', '.join([*map(repr, args), *('%s=%r' % x for x in kw.items())]))
    return w.user_module(name, text)


def tests(ctx, kind='function', runs=2, headers=(None, 'h.h'), options=({},), lang='c', change=True, again=False):
    """A class with a test, which may be another one in the next build."""
    w = World(ctx)
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    for t in ('gcc', 'ar', 'ranlib', 'uname'):
        w.write('bin/' + t, None)
    os.environ['PATH'] = 'w/bin'
    facts = Facts(ctx)
    last = variant = header = given = None
    key = KEY[kind]
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        if r == 0 or change:
            variant = ctx.pick('run%d_test' % r, VARIANTS[kind])
            header = ctx.pick('run%d_header' % r, headers)
            given = ctx.pick('run%d_options' % r, options)
        proc = w.process('pickle')
        c = proc.ctx
        c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
        c.scheduler = cbuild.InlineScheduler()
        tools = Toolchain(w, proc.fbuild.ExecutionError).setup(facts)
        tools.TimedOut = proc.fbuild.ExecutionTimedOut
        c.execute = tools
        os.makedirs('w/build/.tmp', exist_ok=True)
        gcc, temp, config = fresh.load('fbuild.builders.c.gcc', 'fbuild.temp', 'fbuild.config.' + lang)
        temp.set_default_tempdir('w/build/.tmp')
        if again:
            # another class with the same name
            module(w, 'root2', lang, header, [(key, VARIANTS[kind][0])])
        root = module(w, 'root', lang, header, [(key, variant)])
        proc.connect()
        builder = gcc.static(c, 'gcc')
        tools.runs = []
        tools.testing = True
        cls = root.T
        test = cls(builder, **given)
        want = should(facts, variant, key, header, given.get('external_libs', ()))
        what = (kind, r, variant, header, given, sorted(facts.known.items(), key=str))
        got = getattr(test, key)
        done = list(tools.runs)
        ctx.check(plain(got) == want, 'a test tells what the compiler can do', (what, plain(got), want))
        ctx.check(got is None or got == eval(repr(got), dict(vars(config), **{n: getattr(fresh.load('fbuild.config.c')[0], n) for n in RESULT.values()})), 'results can be compared and printed', what)
        if isinstance(want, list):
            cls_ = type(got)
            for i in range(1, len(want)):
                ctx.check(got != cls_(*[('other' if i == j else x) for j, x in enumerate(want) if j]), 'results can be compared and printed', what)
            ctx.check(got != config.Macro() or want == ['Macro'], 'results can be compared and printed', what)
        ctx.check(plain(getattr(test, key)) == want and plain(getattr(cls(builder, **given), key)) == want and tools.runs == done, 'a test is made once', (what, tools.runs))
        for d in done:
            if d[0] == 'link':
                ctx.check([*d[1:]] == [sorted(given.get(k, ())) for k in ('external_libs', 'flags', 'libpaths')], 'a test is linked with what is given', (what, d))
        if last == (variant, header, given):
            ctx.check(not done, 'a test is made once', (what, done))
            ctx.reach('known')
        # ---- what there is in the class ----
        if not isinstance(got, str):
            kind_ = variant[0]
            name = variant[2].get('name', ('struct ' if kind_ == 'struct' else '') + key)
            for f, kinds in (('functions', ('function',)), ('macros', ('macro',)), ('types', ('type', 'int_type')), ('int_types', ('int_type',)), ('structs', ('struct',)), ('variables', ('variable',))):
                ctx.check([(n, plain(v)) for n, v in getattr(test, f)()] == ([(name, want)] if kind_ in kinds else []), 'all tests of a class are told', (what, f))
        ctx.check([n for n, _ in cls.fields()] == (['header'] if header is not None else []) + [key], 'all tests of a class are told', what)
        ctx.check(plain(test.get(key, 'no')) == ('no' if want is None else want) and test.get(key + '.x.y', 'no') == 'no', 'get tells what a test tells', what)
        last = (variant, header, given)
        proc.close()
        shutil.rmtree('w/build/.tmp')
        ctx.reach('yes' if want is not None else 'no')
        ctx.observe((kind, r, repr(want)))
    ctx.sample(kind=kind)


def tries(ctx, which=('try_compile', 'check_compile', 'try_link_lib', 'check_link_lib', 'try_link_exe', 'check_link_exe', 'try_run', 'check_run', 'tempfile_run', 'check_statement')):
    """Whether a builder can do something."""
    w = World(ctx)
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    for t in ('gcc', 'ar', 'ranlib', 'uname'):
        w.write('bin/' + t, None)
    os.environ['PATH'] = 'w/bin'
    proc = w.process('pickle')
    c = proc.ctx
    c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
    c.scheduler = cbuild.InlineScheduler()
    tools = Toolchain(w, proc.fbuild.ExecutionError).setup(Facts(ctx))
    logs = []

    class Log:
        def check(self, msg, *a, **kw):
            logs.append(str(msg))

        def passed(self, *a, **kw):
            logs.append('passed')

        def failed(self, *a, **kw):
            logs.append('failed')

        def __getattr__(self, k):
            return lambda *a, **kw: None
    c.execute = tools
    os.makedirs('w/build/.tmp', exist_ok=True)
    gcc, temp = fresh.load('fbuild.builders.c.gcc', 'fbuild.temp')
    temp.set_default_tempdir('w/build/.tmp')
    proc.connect()
    builder = gcc.static(c, 'gcc')
    f = ctx.pick('function', which)
    stages = ['compile', 'link', 'run'] if 'run' in f else ['compile', 'link'] if 'link' in f else ['compile']
    outcome = {s: ctx.pick(s, ['works', 'fails', 'times out', 'is broken']) for s in stages}
    codes, flags = [], []

    class Broken(Exception):
        pass

    def execute(cmd, *a, **kw):
        cmd = [str(x) for x in cmd]
        tool = os.path.basename(cmd[0])
        stage = 'compile' if '-c' in cmd else 'link' if tool in ('gcc', 'ar', 'ranlib') else 'run'
        if stage == 'compile':
            with open([x for x in cmd if x.endswith('.c')][0]) as g:
                codes.append(g.read())
            flags.append([x for x in cmd if x.startswith('-D')])
        out = outcome.get(stage, 'works')
        if out == 'works':
            with open(cmd[cmd.index('-o') + 1] if '-o' in cmd else 'w/build/.tmp/x', 'w') as g:
                g.write('x')
            return b'said', b'told'
        raise {'fails': proc.fbuild.ExecutionError(cmd, b'', b'', 1), 'times out': proc.fbuild.ExecutionTimedOut(cmd, b'', b'', -9), 'is broken': Broken()}[out]
    c.execute = execute
    c.logger = Log()
    kw = {'macros': ['D']} if f.endswith('compile') and ctx.is_true(ctx.bool('given')) else {}
    first = next((outcome[s] for s in stages if outcome[s] != 'works'), None)
    what = (f, sorted(outcome.items()))
    got = error = None
    code = 'int main() { code; }'
    try:
        if f == 'check_statement':
            got = builder.check_statement('x', 'code;', headers=['h.h'])
        elif f.startswith('check'):
            got = getattr(builder, f)(code, 'checking it', **kw)
        else:
            got = getattr(builder, f)(code, **kw)
    except Broken as e:
        error = e
    except proc.fbuild.ExecutionError as e:
        error = e
    proc.close()
    if first == 'is broken' or first and f == 'tempfile_run':
        ctx.check(error is not None and isinstance(error, Broken) == (first == 'is broken'), 'other failures are passed on', what)
        ctx.reach('error')
    else:
        ctx.check(error is None, 'what fails is false', (what, repr(error)))
        if f == 'tempfile_run':
            ctx.check(got == (b'said', b'told'), 'what a program prints is told', (what, got))
        else:
            ctx.check(got is (first is None), 'what works is true' if first is None else 'what fails is false', (what, got))
        if f.startswith('check'):
            ctx.check(len(logs) == 2 and logs[1] == ('failed' if first else 'passed'), 'checks are logged', (what, logs))
        ctx.reach('works' if first is None else 'fails')
    ctx.check(len(codes) == 1 and 'code' in codes[0], 'what is asked for is tried', (what, codes))
    ctx.check(flags == [['-DD'] if kw else []], 'what is asked for is tried', (what, flags))
    ctx.observe(what)
    ctx.sample(which=f)


def exist(ctx, which=('check_header_exists', 'check_functions_exist', 'check_macros_exist', 'check_types_exist'), items=2):
    """What exists."""
    w = World(ctx)
    oldpath = os.environ['PATH']
    ctx.cleanups.append(lambda: os.environ.__setitem__('PATH', oldpath))
    for t in ('gcc', 'ar', 'ranlib', 'uname'):
        w.write('bin/' + t, None)
    os.environ['PATH'] = 'w/bin'
    proc = w.process('pickle')
    c = proc.ctx
    c.options = types.SimpleNamespace(buildroot=proc.context_mod.Path('w/build'))
    c.scheduler = cbuild.InlineScheduler()
    facts = Facts(ctx)
    tools = Toolchain(w, proc.fbuild.ExecutionError).setup(facts)
    c.execute = tools
    os.makedirs('w/build/.tmp', exist_ok=True)
    gcc, temp = fresh.load('fbuild.builders.c.gcc', 'fbuild.temp')
    temp.set_default_tempdir('w/build/.tmp')
    proc.connect()
    builder = gcc.static(c, 'gcc')
    tools.testing = True
    f = ctx.pick('function', which)
    headers = ctx.pick('headers', [[], ['h.h'], ['h.h', 'g.h']])
    there = headers if all([facts.true('there is %s' % h) for h in headers]) else None

    def declared(n):
        return there is not None and any([facts.true('%s declares %s' % (h, n)) for h in [*there, 'the compiler']])
    if f == 'check_header_exists':
        what = (f, headers)
        got = builder.check_header_exists('h.h')
        want = facts.true('there is h.h')
    else:
        names = {'check_functions_exist': [('f', 'f(1, 0);'), ('g', 'g();')], 'check_macros_exist': ['MM', 'N', 'M'], 'check_types_exist': ['tt', ('u', 'u x;'), 't']}[f]
        names = [n for i, n in enumerate(names) if ctx.is_true(ctx.bool('asked_%d' % i))][:items]
        what = (f, headers, names)
        got = getattr(builder, f)(*names, headers=list(headers))
        names = [n if isinstance(n, str) else n[0] for n in names]
        want = {n for n in names if declared(n)}
    proc.close()
    ctx.check(got == want, 'what exists is found', (what, sorted(got) if isinstance(got, set) else got, sorted(facts.known.items())))
    ctx.reach('exists' if want else 'does not exist')
    ctx.observe(what)
    ctx.sample(which=f)
