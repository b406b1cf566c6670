ASSUME = ['Threads, locks, queues and events follow the documented semantics of threading, queue and _thread '
          '(symx/vthread.py implements them); a thread switch happens at blocking operations and, within the '
          'preemption bound, at any statement (points) or synchronisation operation.']


def jobs(tier):
    q = tier == 'quick'
    J = []

    def add(**k):
        J.append(('sched:maps', k))
    add(threads=1, n=3, nested=2)
    add(threads=2, n=2, inter='main')
    add(threads=2, n=3, inter='main')
    add(threads=2, n=2, nested=2)
    add(threads=2, n=2, nested=1, again=False)
    add(threads=2, n=3, inter='tasks', again=False)
    add(threads=3, n=3, preempt=0)
    add(threads=2, n=2, points=True, again=False)
    add(threads=2, n=2, preempt=2, again=False)
    add(threads=3, n=2, nested=2, preempt=0, again=False)
    if not q:
        add(threads=2, n=4)
        add(threads=3, n=3, again=False)
        add(threads=2, n=2, nested=2, inter='tasks', again=False)
        add(threads=2, n=3, points=True, again=False)
        add(threads=2, n=2, nested=1, points=True, again=False)
        add(threads=2, n=3, preempt=2, again=False)
        add(threads=3, n=4, preempt=0, nested=1, again=False)
    return J


SPEC = dict(
    jobs=jobs,
    require=['all done', 'results are in the order of the inputs', 'every input is mapped exactly once',
             'only one task runs at a time', 'all workers ended', 'the scheduler can be used again'],
    bounds='1 to 3 threads, up to 3 inputs (thorough: 4), up to 2 nested maps of 2 inputs, optional interruptible '
           'blocks; every order of blocked threads and 1 (some: 2) preemptions at synchronisation operations or '
           'at any statement of fbuild.sched (points)',
    outside='more threads, inputs, preemptions; tasks that call shutdown',
    assumptions=ASSUME,
)
