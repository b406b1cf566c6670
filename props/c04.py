from props.common import DB_ASSUME


def jobs(tier):
    J = []

    def add(**k):
        J.append(('dbfuncs:funcs', dict(props='sound', fail=True, **k)))
    for e in ('pickle', 'sqlite'):
        add(engine=e, n=2, calls=(1, 1))
        add(engine=e, n=2, calls=(2,))
        if tier != 'quick':
            add(engine=e, n=3, calls=(1, 1), starts=1)
            add(engine=e, n=2, calls=(2, 1))
    add(engine='cache', n=2, calls=(2,))
    add(engine='cache', n=3, calls=(2,), starts=1)
    for e in ('pickle', 'sqlite', 'cache'):
        for kinds, args in ((('src', 'ext'), (0,)), (('ext',), (0, 1)), (('srcs',), (0, 1))):
            J.append(('dbshared:shared', dict(engine=e, kinds=kinds, args=args, fail=True, props='sound',
                                              steps=4)))
    return J


SPEC = dict(
    jobs=jobs,
    require=['failed call', 'swallowed failure', 'a failure is never replayed from the cache',
             'result is what running the functions now gives', 'a call that failed runs again'],
    bounds='2-3 cached functions with a symbolic acyclic call graph; every run of the last two may raise '
           '(symbolic); callers may try another function and ignore its failure; 2 calls within one process '
           'or in two processes with symbolic source versions',
    outside='failures inside the database backend itself (C06), asynchronous interrupts within a call',
    assumptions=DB_ASSUME[:3] + DB_ASSUME[4:],
)
