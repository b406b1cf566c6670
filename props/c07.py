from props.common import DB_ASSUME


def jobs(tier):
    J = []
    for e in ('pickle', 'sqlite'):
        J.append(('dbstate:version', dict(engine=e)))
        J.append(('dbstate:moved', dict(engine=e)))
    return J


SPEC = dict(
    jobs=jobs,
    require=['died', 'did not die', 'nothing is taken from a state of another version',
             'a state of the same version is used', 'the new state is used by the next run',
             'a result that can not be loaded is computed again'],
    bounds='a state saved by a run of 3 functions, restamped as the previous, the next or no version, opened by '
           'a run that dies at a symbolic point of opening, using or saving it (or not), then by another run; '
           'a state whose objects belong to a class or module that is gone, as result or argument',
    outside='states of other versions whose layout differs from the current one, corrupted files',
    assumptions=DB_ASSUME,
)
