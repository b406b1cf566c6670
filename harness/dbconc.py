"""Cached calls that run in the scheduler's threads."""
import sys

from symx.vthread import Runtime
from symx.world import World, tok, untok

HEADER = '''
from fbuild.db import caches
'''
FUN = '''
@caches
def %(f)s(ctx, a):
    return W.body(%(f)r, '%(ver)s', ctx, a)
'''


class Log:
    import contextlib

    @contextlib.contextmanager
    def log_from_thread(self):
        yield

    def __getattr__(self, k):
        return lambda *a, **kw: None


class Graph:
    def __init__(self, ctx, nested, gs):
        self.c = ctx
        self.gs = ['g%d' % i for i in range(gs)]
        self.nested = nested
        self.runs = []
        self.parallel = False

    def calls(self, f, g, v):
        return self.c.is_true(self.c.ufbool('calls_%s_%s' % (f, g), v))

    def pause(self, ctx, name):
        """e.g. wait for a compiler"""
        if self.parallel:
            with ctx.scheduler.interruptible():
                self.rt.relax()

    def body(self, f, ver, ctx, a):
        v = untok(ver)
        self.runs.append(f)
        subs = []
        if f.startswith('f'):
            self.pause(ctx, f)
            if self.nested == f:
                subs += ctx.scheduler.map(lambda g: getattr(self.mod, g)(ctx, a), list(self.gs))
            else:
                for g in self.gs:
                    if self.calls(f, g, v):
                        subs.append(getattr(self.mod, g)(ctx, a))
                        self.pause(ctx, f)
        else:
            self.pause(ctx, f)
        return (f, v, a, tuple(subs))

    def fresh(self, f, a):
        v = self.vers[f]
        subs = []
        if f.startswith('f'):
            for g in self.gs:
                if self.nested == f or self.calls(f, g, v):
                    subs.append(self.fresh(g, a))
        return (f, v, a, tuple(subs))


def conc(ctx, engine='pickle', threads=2, nested=None, tops=('f0', 'f1'), fixed=False, preempt=0, gs=2):
    w = World(ctx)
    w.set_now(1000.0)
    g = Graph(ctx, nested, gs)
    names = tuple(sorted(set(tops) | set(g.gs)))
    proc = None
    for p in (0, 1):
        rt = Runtime(ctx, preempt=preempt if p == 0 else 0, name='p%d' % p)
        g.rt = rt
        if proc is not None:
            proc.close()
        proc = w.process(engine, runtime=rt)
        sched = sys.modules['fbuild.sched']
        # The rpc thread only touches the backend, and the main thread only
        # collects results, so it does not matter when exactly they run.
        rt.eager = lambda t: t is rt.main or isinstance(t.obj, sys.modules['fbuild.rpc'].RPC)
        rt.calm = True
        proc.ctx.scheduler = sched.Scheduler(threads if p == 0 else 1, logger=Log())
        new = {n: ctx.atom('version_%s_%d' % (n, p), 0, None) for n in names}
        if p and fixed:
            # only what is called changes
            for n in tops:
                if n.startswith('g'):
                    continue
                new[n] = g.vers[n]
        g.vers = new
        g.mod = w.user_module('fbuser', HEADER + ''.join(FUN % dict(f=n, ver=tok(new[n])) for n in names), W=g)
        proc.connect()
        if p == 0:
            g.parallel = True
            rt.calm = False
            res = proc.ctx.scheduler.map(lambda f: getattr(g.mod, f)(proc.ctx, 5), list(tops))
            g.parallel = False
            rt.calm = True
        else:
            res = [getattr(g.mod, f)(proc.ctx, 5) for f in tops]
        for f, r in zip(tops, res):
            want = g.fresh(f, 5)
            ctx.check(lambda: ctx.eq(r, want), 'result is what running the functions now gives',
                      'process %d %s' % (p, f))
        ctx.observe((p, list(g.runs)))
        proc.ctx.scheduler.shutdown()
    ctx.reach('done')
    ctx.sample(runs=list(g.runs))
    proc.close()
