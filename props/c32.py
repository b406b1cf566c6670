from props.common import DB_ASSUME


def jobs(tier):
    q = tier == 'quick'
    J = []
    for e in ('pickle', 'sqlite', 'cache'):
        J += [dict(engine=e), dict(engine=e, runs=3, changes='shd'), dict(engine=e, explain=False)]
        if e != 'cache':
            J.append(dict(engine=e, runs=3, changes='fag'))
        if not q:
            J += [dict(engine=e, runs=3), dict(engine=e, runs=4, changes='shd'), dict(engine=e, runs=4, changes='sda')]
    return [('explained:run', k) for k in J]


SPEC = dict(
    jobs=jobs,
    require=['explained', 'silent', 'new function', 'changed function', 'new call', 'changed file', 'lost output', 'not run',
             'explaining does not change results', 'functions that changed are told', 'calls that are new are told', 'files that changed are told',
             'outputs that are lost are told', 'what is not run is not explained', 'functions run if something changed', 'nothing is explained unless it is asked for'],
    bounds='a function with a declared source, a file it registers, a registered output and an argument, that calls another function; two and three (thorough: four) builds in which any of these change, or the output is lost; the pickle, sqlite and cache engines',
    outside='the wording, except that functions and files are named and that functions that changed are called dirty; which of several lost outputs is named; sources of new calls, which may be named as well',
    assumptions=DB_ASSUME,
)
