from props.common import DB_ASSUME


def jobs(tier):
    return [('dbstate:delete', dict(engine=e, calls=2 if tier == 'quick' else 3))
            for e in ('pickle', 'sqlite', 'cache')]


SPEC = dict(
    jobs=jobs,
    require=['deleted data is not used', 'nothing else is deleted', 'reports whether the function was cached',
             'reports whether the file was cached'],
    bounds='2 (thorough: 3) calls of 3 functions (one calling another, one registering its files itself) with 2 '
           'arguments, optional restarts before and after deleting any one of 4 functions or 3 files',
    outside='several deletions in a row',
    assumptions=DB_ASSUME,
)
