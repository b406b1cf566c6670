from props.c10 import ASSUME


def jobs(tier):
    q = tier == 'quick'
    J = []

    def add(**k):
        J.append(('sched:deps', k))
    add(threads=1, n=3, extra=True)
    add(threads=2, n=3, twice=True)
    add(threads=2, n=4)
    add(threads=2, n=2, preempt=1)
    add(threads=1, n=3, dups=True)
    if not q:
        add(threads=1, n=4, dups=True)
        add(threads=2, n=2, preempt=1, extra=True)
        add(threads=3, n=3, twice=True)
        add(threads=2, n=3, preempt=1)
        add(threads=2, n=4, twice=True)
        add(threads=1, n=4, extra=True, twice=True)
        add(threads=2, n=2, preempt=1, points=True)
    return J


SPEC = dict(
    jobs=jobs,
    require=['done', 'dependencies are finished before their dependents start',
             'every function runs exactly once', 'results come after those of the dependencies',
             'the order of the results does not depend on the schedule'],
    bounds='every acyclic dependency graph over up to 4 sources (some with dependencies that are no sources, or that are named twice) given in '
           '3 orders, 1 or 2 threads (thorough: 3), every order of blocked threads, some with 1 preemption',
    outside='more sources and threads; generators as srcs',
    assumptions=ASSUME,
)
