from props.c10 import ASSUME


def jobs(tier):
    q = tier == 'quick'
    J = []

    def add(**k):
        J.append(('rpc:rpc', k))
    add(clients=2, wait=0)
    add(clients=1, joins=2, wait=0)
    add(clients=1, calls=2, early=False)
    add(clients=2, calls=1, early=False)
    add(clients=2, preempt=0, joins=2)
    add(clients=1)
    add(clients=1, calls=2, fail=False)
    if not q:
        add(clients=1, preempt=2, fail=False)
        add(clients=2)
        add(clients=1, joins=2)
        add(clients=2, joins=2, fail=False)
        add(clients=3, preempt=0, fail=False)
        add(clients=2, calls=2, preempt=0)
        add(clients=1, joins=2, preempt=2, fail=False, wait=0)
        add(clients=2, points=False, preempt=2, fail=False)
    return J


SPEC = dict(
    jobs=jobs,
    require=['answered', 'failed', 'refused', 'every call is handled once', 'every caller gets its own result',
             'the exception of the handler is raised in the caller', 'one call is handled at a time',
             'no caller is left hanging', 'a refused call is not handled'],
    bounds='1 or 2 (thorough: 3) client threads with 1 or 2 calls each, any of which fail, 1 or 2 threads shutting the '
           'rpc thread down at any time; every order of blocked threads and 1 (thorough: 2) preemptions at any '
           'statement of fbuild.rpc',
    outside='handlers that call back into the rpc thread or raise SystemExit or KeyboardInterrupt',
    assumptions=ASSUME,
)
