"""--explain-database: why functions run is what is told."""
from symx.world import World, tok, untok

HEADER = '''
from fbuild.db import caches, SRC
from fbuild.path import Path
'''
G = '''
@caches
def g(ctx):
    return W.g('%s')
'''
F = '''
@caches
def f(ctx, a, s: SRC):
    g(ctx)
    return W.f(ctx, '%s', a)

def do(ctx, a): return f(ctx, a, Path(W.path('s')))
'''


class Log:
    def __init__(self):
        self.lines = []

    def log(self, msg, *a, **kw):
        self.lines += str(msg).split('\n')

    def write(self, msg, *a, **kw):
        self.lines += str(msg).split('\n')

    def __getattr__(self, k):
        return lambda *a, **kw: None


class Body:
    def __init__(self, w):
        self.w = w
        self.ran = []
        self.path = w.path

    def g(self, ver):
        self.ran.append('g')
        return 0

    def f(self, ctx, ver, a):
        self.ran.append('f')
        self.w.write('d', None)
        ctx.db.add_external_dependencies_to_call(srcs=[self.path('h')], dsts=[self.path('d')])
        return (untok(ver), a, self.w.read('s'), self.w.read('h'))


def run(ctx, engine, runs=2, changes=('s', 'h', 'd', 'a', 'f', 'g'), explain=True):
    w = World(ctx)
    b = Body(w)
    proc = None
    saved = None        # versions
    before = []
    calls = {}          # argument -> contents
    for r in range(runs):
        w.set_now(10.0 * (r + 1))
        old = locals().get('A')
        A = {k: ctx.atom('run%d_%s' % (r, k), 0, 99999 if not ctx.symbolic else None) if not old or k in changes else old[k] for k in 'shfg'}
        for k in 'sh':
            w.write(k, A[k], mtime=10.0 * (r + 1))
        lost = bool(r) and 'd' in changes and ctx.is_true(ctx.bool('run%d_lost' % r))
        if lost:
            w.remove('d')
        a = ctx.pick('run%d_arg' % r, [1, 2]) if 'a' in changes else 1
        if engine != 'cache' or proc is None:
            if proc is not None:
                proc.close()
            proc = w.process(engine)
            if explain:
                # (as fbuild.context.Context does it)
                proc.ctx.db.shutdown()
                proc.ctx.db = proc.database_mod.Database(proc.ctx, engine=engine, explain=True)
            log = proc.ctx.logger = Log()
            proc.connect()
            mod = w.user_module('usermod', HEADER + G % tok(A['g']) + F % tok(A['f']), W=b)
        else:
            # (functions of one process do not change)
            A['f'], A['g'] = old['f'], old['g']
        b.ran.clear()
        log.lines.clear()
        result = mod.do(proc.ctx, a)
        lines = [x for x in log.lines if x.strip()]
        ctx.check(lambda: ctx.all([ctx.eq(result[0], A['f']), result[1] == a, ctx.eq(result[2], A['s']), ctx.eq(result[3], A['h'])]), 'explaining does not change results')
        ran = list(b.ran)

        def changed(x, y):
            return not ctx.is_true(ctx.eq(x, y))
        about = {n: [x for x in lines if 'usermod.' + n in x] for n in 'fg'}
        files = {n: any(x.split()[-1] == w.path(n) for x in lines) for n in 'shd'}
        what = (r, engine, a, lost, ran, len(lines))
        if not explain:
            ctx.check(not lines, 'nothing is explained unless it is asked for', what)
            ctx.reach('silent')
            continue
        gdirty = saved is None or changed(saved['g'], A['g'])
        fdirty = saved is None or gdirty or changed(saved['f'], A['f'])
        if fdirty:
            calls = {}
        known = calls.get(a)
        ctx.check(('g' in ran) == gdirty, 'functions run if something changed', what)
        dirty = {n: any('dirty' in x for x in about[n]) for n in 'fg'}
        ctx.check(dirty == dict(f=fdirty, g=gdirty), 'functions that changed are told', (what, dirty, fdirty, gdirty))
        if not gdirty:
            ctx.check(not about['g'], 'what is not run is not explained', what)
        if not fdirty:
            ctx.check(bool(about['f']) == (known is None), 'calls that are new are told', (what, about['f']))
            if known is None:
                ctx.reach('new call')
            else:
                want = {n: changed(known[n], A[n]) for n in 'sh'}
                for n in want:
                    # (contents that changed back since an earlier build may count)
                    ctx.check(files[n] == want[n] or not want[n] and any(changed(x[n], A[n]) for x in before), 'files that changed are told', (what, files, want))
                again = files['s'] or files['h']
                ctx.check(files['d'] == (lost and not again), 'outputs that are lost are told', (what, files))
                ctx.check(('f' in ran) == (again or lost), 'functions run if something changed', what)
                if again:
                    ctx.reach('changed file')
                elif lost:
                    ctx.reach('lost output')
                else:
                    ctx.check(not lines, 'what is not run is not explained', what)
                    ctx.reach('not run')
        else:
            ctx.check('f' in ran, 'functions run if something changed', what)
            ctx.reach('changed function' if saved else 'new function')
        before.append(A)
        saved = A
        calls[a] = A
        ctx.reach('explained')
        ctx.observe(what)
    proc.close()
    ctx.sample(engine=engine, runs=runs)
