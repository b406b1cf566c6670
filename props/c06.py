from props.common import DB_ASSUME


def jobs(tier):
    J = []
    for e in ('pickle', 'sqlite'):
        J.append(('dbstate:crash', dict(engine=e)))
        J.append(('dbstate:crash', dict(engine=e, first=(), second=('h', 'f'))))
        J.append(('dbstate:crash', dict(engine=e, first=None, second=('h', 'f'))))
        J.append(('dbstate:crash', dict(engine=e, first=('g', 'h'), second=('f', 'g'))))
        if tier != 'quick':
            J.append(('dbstate:crash', dict(engine=e, first=('f', 'g', 'h'), second=('g', 'f', 'h', 'f'))))
    return J


SPEC = dict(
    jobs=jobs,
    require=['did not die', 'died while write', 'died while sql', 'died while commit',
             'results saved by an earlier run survive a crash', 'the state is complete again'],
    bounds='a run that saved its state (or none), then a run that dies at a symbolic point: before any operation that '
           'changes the state file (open, write with 4 torn prefixes, rename, replace, remove; any SQL statement '
           'or commit), in connect, in any of 2 (4) cached calls or while saving; the sources, function texts and '
           'arguments of the second run symbolic; then a run that must work and one that must be complete',
    outside='power loss (writes reaching the disk out of order) and crashes inside the sqlite library, '
            'which is trusted to be atomic per transaction',
    assumptions=DB_ASSUME,
)
