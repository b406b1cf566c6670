"""The scheduler under every schedule (virtual threads)."""
from symx import fresh
from symx.vthread import Runtime


class Boom(Exception):
    pass


class NullLog:
    import contextlib

    @contextlib.contextmanager
    def log_from_thread(self):
        yield


def setup(ctx, threads, preempt, points):
    fresh.forget()
    rt = Runtime(ctx, preempt=preempt, points=points)
    sched, = rt.load('fbuild.sched')
    left, rt.left = rt.left, 0
    s = sched.Scheduler(threads, logger=NullLog())
    rt.left = left
    return rt, sched, s


class Mutex:
    """Tasks only run at the same time inside interruptible blocks."""

    def __init__(self, ctx):
        self.c = ctx
        self.inside = []

    def enter(self, who):
        self.c.check(not self.inside, 'only one task runs at a time', '%r while %r' % (who, self.inside))
        self.inside.append(who)

    def leave(self, who):
        self.inside.remove(who)


def maps(ctx, threads=2, n=3, preempt=1, points=False, fail=False, nested=0, inter=None, again=True):
    """Scheduler.map: results, order, exactly once, mutual exclusion, failures, shutdown."""
    rt, sched, s = setup(ctx, threads, preempt, points)
    ctx.check(s.threadcount == threads, 'thread count')
    runs = []
    failed = []
    m = Mutex(ctx)
    vals = [ctx.atom('value%d' % i, 0, None) for i in range(n)]
    sub = [ctx.atom('sub%d' % i, 0, None) for i in range(nested)]
    fails = {}

    def fails_at(key):
        if not fail:
            return False
        if key not in fails:
            fails[key] = ctx.is_true(ctx.bool('fail_%s' % key))
        return fails[key]

    def inner(x):
        i, j = x
        m.enter(x)
        runs.append(x)
        rt.point()
        m.leave(x)
        if fails_at('%d_%d' % x):
            failed.append(x)
            raise Boom(x)
        return (i, sub[j])

    def task(i):
        m.enter(i)
        runs.append(i)
        r = ()
        if nested and i < 2:
            # (inside a nested map other tasks may run)
            m.leave(i)
            r = tuple(s.map(inner, [(i, j) for j in range(nested)]))
            m.enter(i)
        elif inter == 'tasks' and ctx.is_true(ctx.bool('interruptible%d' % i)):
            m.leave(i)
            with s.interruptible() as interrupt:
                interrupt()
            m.enter(i)
        rt.point()
        m.leave(i)
        if fails_at('%d' % i):
            failed.append(i)
            raise Boom(i)
        return (i, vals[i], r)

    err = None
    try:
        res = s.map(task, iter(range(n)))
    except Boom as e:
        err = e
        ctx.reach('a task failed')
    ctx.check(not m.inside, 'no task runs after the map ended', repr(m.inside))
    ended = len(runs)
    if err is None:
        want = [(i, vals[i], tuple((i, sub[j]) for j in range(nested)) if nested and i < 2 else ())
                for i in range(n)]
        ctx.check(not failed, 'a failure is not lost', '%r' % (failed,))
        ctx.check(ctx.eq(res, want), 'results are in the order of the inputs')
        ctx.check(sorted(map(str, runs)) == sorted([str(i) for i in range(n)] + [
            str((i, j)) for i in range(min(n, 2)) for j in range(nested)]), 'every input is mapped exactly once')
        ctx.reach('all done')
    else:
        ctx.check(err.args[0] in failed, 'the exception is that of a task that failed')
        ctx.check(len(set(map(str, runs))) == len(runs), 'every input is mapped at most once')
    if again:
        # the scheduler can be used again
        if inter == 'main':
            with s.interruptible() as interrupt:
                rt.relax()
        ctx.check(list(s.map(lambda i: i + 10, [1, 2, 3])) == [11, 12, 13], 'the scheduler can be used again')
        if inter == 'main':
            with s.interruptible() as interrupt:
                interrupt()
    workers = [t for t in rt.threads if t is not rt.main]
    s.shutdown()
    ctx.check(len(runs) == ended, 'no task runs after the map ended', repr(runs))
    ctx.check(all(t.done for t in workers), 'all workers ended')
    ctx.check(not any(getattr(t, 'exc', None) for t in workers), 'no worker died',
              repr([getattr(t, 'exc', None) for t in workers]))
    ctx.check(s.threadcount == 0, 'no thread is left')
    ctx.observe((runs, failed, err is None))
    ctx.sample(threads=threads, n=n, runs=len(runs))


def deps(ctx, threads=2, n=3, preempt=0, fail=False, cycles=False, extra=False, twice=False, selfs=False, points=False, dups=False):
    """Scheduler.map_with_dependencies on every dependency graph."""
    rt, sched, s = setup(ctx, threads, preempt, points)
    names = ['n%d' % i for i in range(n)]
    graph = {}
    begun, done, failed = [], [], []

    def depends(x):
        i = names.index(x)
        if x not in graph:
            out = []
            order = range(n) if cycles else range(i)
            for j in order:
                if (j != i or selfs) and ctx.is_true(ctx.bool('dep_%d_%d' % (i, j))):
                    out.append(names[j])
            if extra and ctx.is_true(ctx.bool('unknown_%d' % i)):
                out.insert(0, 'unknown')
            if dups and out and ctx.is_true(ctx.bool('named_twice_%d' % i)):
                out = out + out
            graph[x] = out
        if fail and ctx.is_true(ctx.bool('depfail_%d' % i)):
            failed.append(('depends', x))
            raise Boom(x)
        return list(graph[x])

    def fun(x):
        begun.append(x)
        for d in graph[x]:
            if d in names:
                ctx.check(d in done, 'dependencies are finished before their dependents start', '%s %s' % (d, x))
        rt.point()
        if fail and ctx.is_true(ctx.bool('fail_%s' % x)):
            failed.append(('run', x))
            raise Boom(x)
        done.append(x)
        return ('r', x)

    def reach(x):
        seen, todo = set(), [x]
        while todo:
            for d in graph.get(todo.pop(), ()):
                if d in names and d not in seen:
                    seen.add(d)
                    todo.append(d)
        return seen

    # (sources may be given in any order)
    srcs = names if cycles else ctx.pick('order', [names, names[::-1], names[1:] + names[:1]])
    err = None
    try:
        res = s.map_with_dependencies(depends, fun, srcs)
    except sched.DependencyLoop as e:
        err = e
    except Boom as e:
        err = e
    ended = list(begun)
    ctx.check(len(set(begun)) == len(begun), 'every function runs at most once', repr(begun))
    looping = [x for x in names if x in reach(x)]
    if isinstance(err, sched.DependencyLoop):
        ctx.reach('dependency loop')
        ctx.check(bool(looping), 'a loop is only reported if there is one', repr(graph))
        text = str(err)
        # every source in a loop is named, together with what it depends on
        ctx.check(any(x in text for x in looping), 'the loop is reported with its members', '%r %r' % (graph, text))
        for x in names:
            if x in text:
                ctx.check(x in looping, 'only members of loops are reported', '%r %r' % (graph, text))
    elif err is not None:
        ctx.reach('failure')
        ctx.check(('depends', err.args[0]) in failed or ('run', err.args[0]) in failed, 'the exception is that of what failed')
        if any(k == 'depends' for k, x in failed):
            ctx.check(not begun, 'nothing runs if the dependencies could not be found')
    else:
        ctx.reach('done')
        ctx.check(not failed, 'a failure is not lost')
        ctx.check(not looping, 'a loop is not overlooked', repr(graph))
        ctx.check(sorted(done) == sorted(names), 'every function runs exactly once')
        ctx.check(sorted(res) == sorted(('r', x) for x in names), 'every source has its result')
        pos = {x: i for i, (r, x) in enumerate(res)}
        for x in names:
            for d in graph[x]:
                if d in names:
                    ctx.check(pos[d] < pos[x], 'results come after those of the dependencies', repr(res))
    if looping:
        for x in begun:
            ctx.check(x not in looping and not any(d in looping for d in reach(x)),
                      'nothing that depends on a loop runs', repr(begun))
    if twice and err is None:
        del begun[:], done[:]
        # (comparing every schedule with one is enough)
        rt.calm = True
        ctx.check(s.map_with_dependencies(depends, fun, srcs) == res, 'the order of the results does not depend on the schedule')
    if err is not None:
        ctx.check(list(s.map(lambda i: i + 1, [1, 2])) == [2, 3], 'the scheduler can be used again')
    workers = [t for t in rt.threads if t is not rt.main]
    s.shutdown()
    if err is not None:
        ctx.check(begun == ended, 'nothing runs after the map ended')
    ctx.check(all(t.done for t in workers) and not any(getattr(t, 'exc', None) for t in workers), 'all workers ended')
    # (the order of sets is not that of another interpreter)
    ctx.observe((sorted(begun), sorted(done), sorted(failed), graph, sorted(str(err).split('\n'))))
    ctx.sample(n=n, graph=str(graph), threads=threads)
