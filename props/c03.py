from props.common import DB_ASSUME


def jobs(tier):
    J = []

    def add(**k):
        J.append(('dbfuncs:funcs', dict(props='sound', **k)))
    for e in ('pickle', 'sqlite'):
        add(engine=e, n=2, calls=(1, 1, 1))
        add(engine=e, n=3, calls=(1, 1))
        add(engine=e, n=2, calls=(2, 2))
        add(engine=e, n=2, calls=(2, 1), args='sym')
        add(engine=e, n=2, calls=(1, 1), kills=True)
        add(engine=e, n=2, calls=(1, 1, 1), recursive=True, args=2, starts=1)
        add(engine=e, n=2, calls=(1, 1), lazy=True, starts=1)
        add(engine=e, n=3, calls=(1, 1), removal=True)
        add(engine=e, n=2, calls=(2, 1), removal=True)
        if tier != 'quick':
            add(engine=e, n=3, calls=(1, 1, 1))
            add(engine=e, n=3, calls=(2, 1, 1), starts=2)
            add(engine=e, n=2, calls=(2, 2, 1))
            add(engine=e, n=3, calls=(1, 1), lazy=True, starts=1)
            add(engine=e, n=2, calls=(1, 1, 1), kills=True)
            add(engine=e, n=4, calls=(1, 1), starts=2)
    add(engine='cache', n=3, calls=(3,), args='sym')
    for e in ('pickle', 'sqlite'):
        J.append(('dbforms:forms', dict(engine=e, group='objects', versions=True, rounds=2, restarts=['clean'])))
        J.append(('dbforms:forms', dict(engine=e, group='wrapped', versions=True, rounds=2, restarts=['clean'])))
        J.append(('dbforms:forms', dict(engine=e, group='names', versions=True, rounds=2, restarts=['clean'])))
    for a, b in ((0, 1), (1, 1), (1, 2), (2, 2), (2, 3), (3, 3)) + (() if tier == 'quick' else ((3, 4), (4, 4), (4, 5))):
        J.append(('dbsource:digests', dict(a=a, b=b)))
    return J


SPEC = dict(
    jobs=jobs,
    require=['hit', 'result is what running the functions now gives', 'the same source'],
    bounds='2-3 cached functions (4 in thorough), any acyclic call graph between them that may depend on the '
           'source version and the argument (symbolic), one recursive function; 2-3 processes making 1-2 calls '
           'each of a symbolically chosen function; every function\'s source text in every process is symbolic; '
           'functions may be removed, or live in a module that is imported only when called; constructors, '
           'methods, properties and decorated functions whose source changes between two runs; for the digest itself, any two texts of up to three '
           '(thorough: five) characters (blanks, newlines, quotes, comments and letters) in a string in it',
    outside='larger graphs, changes of code that is not a cached function, method, property or constructor',
    assumptions=DB_ASSUME[:3] + DB_ASSUME[4:],
)
