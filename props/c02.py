from props import c01
from props.common import DB_ASSUME


def jobs(tier):
    q = tier == 'quick'
    fun = []
    for e in ('pickle', 'sqlite'):
        fun += [('dbfuncs:funcs', dict(engine=e, n=2, calls=(1, 1, 1), props='eff')),
                ('dbfuncs:funcs', dict(engine=e, n=3, calls=(1, 1), props='eff')),
                ('dbfuncs:funcs', dict(engine=e, n=2, calls=(2, 1), args='sym', props='eff')),
                ('dbfuncs:funcs', dict(engine=e, n=2, calls=(2, 2), recursive=True, args=2, starts=1, props='eff'))]
        if not q:
            fun += [('dbfuncs:funcs', dict(engine=e, n=3, calls=(2, 2), props='eff', kills=True))]
    fun.append(('dbfuncs:funcs', dict(engine='cache', n=3, calls=(3,), args='sym', props='eff')))
    return c01.file_jobs(tier, 'eff') + c01.shared_jobs(tier, 'eff') + c01.form_jobs(tier) + fun


SPEC = dict(
    jobs=jobs,
    require=['hit', 'ran', 'an unchanged call is not run again', 'a nested call is not run twice'],
    bounds=c01.SPEC['bounds'] + '; graphs of 2-3 cached functions calling each other, over 2-3 processes',
    outside=c01.SPEC['outside'],
    assumptions=DB_ASSUME,
)
