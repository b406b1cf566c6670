from props.c10 import ASSUME


def jobs(tier):
    q = tier == 'quick'
    J = []

    def add(fn, **k):
        J.append(('sched:' + fn, k))
    add('deps', threads=1, n=3, cycles=True, selfs=True)
    add('deps', threads=2, n=3, cycles=True)
    add('deps', threads=1, n=4, cycles=True)
    add('deps', threads=2, n=3, fail=True)
    add('maps', threads=1, n=3, fail=True, nested=2)
    add('maps', threads=2, n=2, fail=True, inter='main')
    add('maps', threads=2, n=2, fail=True, nested=1, again=False)
    add('maps', threads=3, n=3, fail=True, preempt=0)
    add('maps', threads=3, n=2, fail=True, nested=2, preempt=0, again=False)
    if not q:
        add('deps', threads=2, n=2, cycles=True, selfs=True, fail=True, preempt=1)
        add('deps', threads=2, n=3, cycles=True, selfs=True, fail=True)
        add('maps', threads=2, n=3, fail=True, again=False)
        add('maps', threads=2, n=2, fail=True, points=True, again=False)
        add('maps', threads=2, n=3, fail=True, nested=1, again=False)
        add('maps', threads=2, n=2, fail=True, nested=2, inter='tasks', again=False)
    return J


SPEC = dict(
    jobs=jobs,
    require=['a task failed', 'dependency loop', 'failure', 'a failure is not lost', 'a loop is not overlooked',
             'the exception is that of a task that failed', 'nothing that depends on a loop runs',
             'no task runs after the map ended', 'no worker died', 'the scheduler can be used again'],
    bounds='up to 3 tasks (nested maps of up to 2) of which any fail; every dependency graph of up to 4 sources with '
           'loops; 1 to 3 threads, every order of blocked threads, 1 preemption at synchronisation operations (some: 0)',
    outside='more tasks and threads; exceptions that are not Exceptions (SystemExit in a task)',
    assumptions=ASSUME,
)
