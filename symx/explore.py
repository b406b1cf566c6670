"""Parallel exploration of all paths of a set of harness instances."""
import gc
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

from . import core, fresh

SCRATCH = None      # per-process scratch directory


def scratch():
    return SCRATCH


def _load(harness):
    mod, fn = harness.split(':')
    return getattr(importlib.import_module('harness.' + mod), fn)


_funcs = set()


def _monitor():
    mon = sys.monitoring
    tid = mon.PROFILER_ID
    mon.use_tool_id(tid, 'symx')

    def start(code, off):
        f = code.co_filename
        if f.startswith('/repo/lib/'):
            _funcs.add('%s:%s' % (f[len('/repo/lib/'):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


HANG_S = 40
HANG_LABEL = 'does not terminate'


def _alarm(sig, frame):
    raise core.Hang()


def run_path(fn, params, prefix, stats):
    """Run one path; returns the ctx."""
    from . import values
    values.reset()
    ctx = core.SymCtx(prefix, dict(params), stats)
    core.set_current(ctx)
    ctx.outcome = 'done'
    cleanups = ctx.cleanups = []
    try:
        try:
            signal.setitimer(signal.ITIMER_REAL, HANG_S, 5)
            try:
                fn(ctx, **params)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except core.Hang:
            ctx.outcome = 'violation'
            try:
                if ctx._check():
                    ctx.violations.append({
                        'label': HANG_LABEL, 'detail': None,
                        'model': ctx.extract(ctx.solver.model())})
                else:
                    ctx.outcome = 'cut'
            except core.Inconclusive as e2:
                ctx.outcome = 'inconclusive: %s' % e2
        except core.PathEnd:
            ctx.outcome = 'cut'
        except core.PathViolation:
            ctx.outcome = 'violation'
        except core.Inconclusive as e:
            ctx.outcome = 'inconclusive: %s' % e
        except Exception as e:
            ctx.outcome = 'violation'
            ctx.exc = traceback.format_exc()
            try:
                if len(ctx.trace) < len(prefix):
                    ctx.outcome = 'inconclusive: exception while replaying a prefix: ' + ctx.exc
                elif ctx._check():
                    ctx.violations.append({
                        'label': 'unexpected exception: %s: %s' % (type(e).__name__, e),
                        'detail': ctx.exc,
                        'model': ctx.extract(ctx.solver.model())})
                else:
                    ctx.outcome = 'cut'
            except core.Inconclusive as e2:
                ctx.outcome = 'inconclusive: %s' % e2
    finally:
        for c in reversed(cleanups):
            try:
                c()
            except (Exception, core.PathEnd, core.PathViolation, core.Inconclusive):
                pass
    return ctx


def _init(seed, base):
    global SCRATCH
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)
    threading.excepthook = lambda a: None
    warnings.simplefilter('ignore')
    sys.unraisablehook = lambda a: None
    SCRATCH = tempfile.mkdtemp(dir=base, prefix='w')
    os.chdir(SCRATCH)
    # the same name in every worker, so that names hash the same
    os.environ['SYMX_SCRATCH'] = '/proc/self/cwd'
    random.seed(seed ^ os.getpid())
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    _monitor()
    fresh.install()
    sys.monitoring.restart_events()


def new_stats():
    return {'queries': 0, 'solver_s': 0.0, 'forks': 0, 'asserts': 0, 'paths': 0,
            'cut': 0, 'decisions': 0}


def _slice(task):
    """Explore depth-first from some prefixes for a slice of time."""
    job, harness, params, prefixes, seconds, want_sample, seed = task
    fn = _load(harness)
    stats = new_stats()
    stack = list(prefixes)
    out = {'job': job, 'violations': [], 'inconclusive': [], 'samples': [],
           'reached': set(), 'cases': []}
    end = time.time() + seconds
    rnd = random.Random('%s/%s/%r' % (seed, job, prefixes[0] if prefixes else None))
    n = 0
    nviol = 0
    while stack:
        prefix = stack.pop()
        ctx = run_path(fn, params, prefix, stats)
        n += 1
        stats['paths'] += 1
        stats['decisions'] += len(ctx.trace) - len(prefix)
        stack.extend(ctx.pending)
        if ctx.outcome == 'cut':
            stats['cut'] += 1
        elif ctx.outcome.startswith('inconclusive'):
            out['inconclusive'].append((params, ctx.outcome))
        elif ctx.outcome == 'violation':
            for v in ctx.violations:
                v['harness'] = harness
                v['params'] = params
                out['violations'].append(v)
                nviol += 6 if v['label'] == HANG_LABEL else 1
            if nviol >= 6:
                break
        else:
            out['reached'] |= ctx.reached
            if ctx.sampled is not None and len(out['cases']) < 2:
                try:
                    m = ctx.end_model()
                    out['cases'].append({'harness': harness, 'params': params,
                                         'note': ctx.values.plain(ctx.sampled), 'values': m['model']['vars']})
                except (core.PathEnd, core.Inconclusive):
                    pass
            if want_sample and ctx.observed and len(out['samples']) < 2 and rnd.random() < 0.3:
                try:
                    s = ctx.end_model()
                    s['harness'] = harness
                    s['params'] = params
                    out['samples'].append(s)
                except (core.PathEnd, core.Inconclusive) as e:
                    pass
        if ctx.outcome != 'cut':
            out['reached'] |= ctx.reached
        core.set_current(None)
        if n % 50 == 0:
            gc.collect()
        if time.time() > end:
            break
    out['left'] = stack
    out['stats'] = stats
    out['funcs'] = set(_funcs)
    return out


class Result:
    def __init__(self):
        self.stats = new_stats()
        self.violations = []
        self.inconclusive = []
        self.samples = []
        self.cases = []
        self.reached = set()
        self.funcs = set()
        self.complete = False
        self.per_job = {}


def explore(jobs, *, workers=None, budget=600, seed=1, slice_s=1.0, stop_after=12, verbose=False):
    """jobs: list of (harness 'mod:fn', params dict)."""
    workers = workers or min(8, os.cpu_count() or 1)
    base = tempfile.mkdtemp(prefix='symx-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    res = Result()
    ctxm = mp.get_context('fork')
    # compile everything once before forking
    pool = None
    try:
        pool = ctxm.Pool(workers, _init, (seed, base))
        queue = [(j, [[]]) for j in range(len(jobs))]
        queue.reverse()
        running = []
        start = time.time()
        while queue or running:
            while queue and len(running) < workers + 2:
                j, prefixes = queue.pop()
                # split so that idle workers get something
                if len(prefixes) > 1 and len(queue) + len(running) < workers:
                    h = max(1, len(prefixes) // workers)
                    parts = [prefixes[i:i + h] for i in range(0, len(prefixes), h)]
                    queue.extend((j, p) for p in parts[1:])
                    prefixes = parts[0]
                sl = slice_s if time.time() - start > 2 else 0.25
                if prefixes == [[]]:
                    sl = 0.25
                running.append(pool.apply_async(_slice, ((
                    j, jobs[j][0], jobs[j][1], prefixes, sl,
                    len(res.samples) < 24, seed),)))
            done = [r for r in running if r.ready()]
            if not done:
                running[0].wait(0.02)
                if time.time() - start > budget:
                    return res
                continue
            for r in done:
                running.remove(r)
                o = r.get()
                for k, v in o['stats'].items():
                    res.stats[k] += v
                res.per_job[o['job']] = res.per_job.get(o['job'], 0) + o['stats']['paths']
                res.violations += o['violations']
                res.inconclusive += o['inconclusive']
                res.samples += o['samples']
                if len(res.cases) < 12:
                    res.cases += o['cases'][:1]
                res.reached |= o['reached']
                res.funcs |= o['funcs']
                if o['left']:
                    queue.append((o['job'], o['left']))
            if len(res.violations) >= stop_after or (res.violations and time.time() - start > 60):
                return res
            if len(res.inconclusive) > 20:
                return res
            if time.time() - start > budget:
                return res
        res.complete = True
        return res
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
        shutil.rmtree(base, ignore_errors=True)
