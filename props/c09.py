from props.common import DB_ASSUME


def jobs(tier):
    q = tier == 'quick'
    J = []

    def add(**k):
        J.append(('dbconc:conc', k))
    add(gs=1, fixed=True)
    add(nested='f0', tops=('f0', 'g0'))
    add(tops=('f0', 'g0'), gs=2)
    add(tops=('f0', 'g0'), gs=1, engine='sqlite')
    add(tops=('f0', 'g0'), gs=1, engine='cache')
    if not q:
        add(gs=1)
        add(gs=1, engine='sqlite')
        add(nested='f0', gs=1)
        add(nested='f0', fixed=True)
        add(nested='f0')
        add(fixed=True)
        add(gs=1, fixed=True, preempt=1)
        add(threads=3, fixed=True, gs=1)
        add(tops=('f0', 'g0'), gs=1, preempt=1)
        add(tops=('f0',), gs=2, nested='f0', preempt=1)
    return J


SPEC = dict(
    jobs=jobs,
    require=['done', 'result is what running the functions now gives'],
    bounds='2 worker threads (thorough: 3); 2 cached functions mapped at once, calling up to 2 other cached functions '
           'each (any call graph, directly or by a nested map), with waits in interruptible blocks; every order in '
           'which blocked threads go on (thorough: and one preemption anywhere); then a second process in which the '
           'source of any of the functions is changed calls them again',
    outside='more threads, functions and runs; files (C01); preemption of a task outside of interruptible blocks is '
            'excluded by the scheduler (C10)',
    assumptions=DB_ASSUME + ['The rpc thread runs as soon as it has something to do (its steps commute with those of '
                             'the other threads: C13).'],
)
