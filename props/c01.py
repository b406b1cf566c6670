from props.common import DB_ASSUME

ONE = ['plain', 'src', 'optsrc', 'ext', 'dst', 'optdst', 'edst', 'ret']
TWO = ['srcs', 'srcext', 'ext2', 'dsts', 'edst2', 'rets', 'mixed']


def file_jobs(tier, props):
    jobs = []

    def add(**k):
        jobs.append(('dbfiles:files', dict(props=props, **k)))
    q = tier == 'quick'
    for e in ('pickle', 'sqlite'):
        for k in ONE:
            add(engine=e, kind=k, rounds=2)
        for k in TWO:
            add(engine=e, kind=k, rounds=2, lite=True, fixarg=True)
        for f in ('method', 'object'):
            for k in (['src', 'mixed'] if f == 'method' else ['plain', 'ext', 'edst']):
                add(engine=e, kind=k, form=f, rounds=2, lite=True, fixarg=True)
        # three states of the world in a row
        for k in ('src', 'ext', 'dst'):
            add(engine=e, kind=k, rounds=3, fixarg=q, restarts=['none', 'clean'] if q else ['none', 'clean', 'kill'])
        if not q:
            for k in ONE:
                add(engine=e, kind=k, rounds=3)
            for k in ('srcs', 'srcext', 'ext2', 'edst2'):
                add(engine=e, kind=k, rounds=2)
                add(engine=e, kind=k, rounds=3, lite=True, fixarg=True, restarts=['none', 'clean'])
    for k in ONE + TWO:
        add(engine='cache', kind=k, rounds=2, lite=k in TWO, fixarg=k in TWO)
    add(engine='cache', kind='src', rounds=3, fixarg=q)
    add(engine='cache', kind='ext', rounds=3, fixarg=q)
    return jobs


def form_jobs(tier):
    jobs = []
    for e in ('pickle', 'sqlite', 'cache'):
        for g in ('functions', 'names', 'objects', 'wrapped'):
            jobs.append(('dbforms:forms', dict(engine=e, group=g)))
            if tier != 'quick':
                jobs.append(('dbforms:forms', dict(engine=e, group=g, rounds=3)))
        jobs.append(('dbforms:forms', dict(engine=e, group='results', results=True)))
        jobs.append(('dbforms:forms', dict(engine=e, group='results', versions=True, rounds=2)))
    return jobs


def shared_jobs(tier, props):
    jobs = []
    n = 4 if tier == 'quick' else 5
    for e in ('pickle', 'sqlite', 'cache'):
        for kinds, args in ((('src', 'ext'), (0,)), (('src', 'srcs'), (0,)), (('ext', 'ext'), (0,)), (('src',), (0, 1))):
            jobs.append(('dbshared:shared', dict(engine=e, kinds=kinds, args=args, steps=n, props=props)))
    return jobs


def jobs(tier):
    return file_jobs(tier, 'sound') + shared_jobs(tier, 'sound') + form_jobs(tier)


SPEC = dict(
    jobs=jobs,
    require=['hit', 'ran', 'result is what running the function now gives',
             'every destination exists after the call', 'reported sources'],
    bounds='histories of 2 calls (3 for one source, one external source, one destination and no restart '
           'by kill in quick) of one cached function, method or constructor with at most 2 source and 2 '
           'destination files (declared singly, as lists, optionally, by the return annotation, or '
           'registered while running), on the pickle, sqlite and in-memory engines; between calls every file '
           'content, modification time (quarter seconds within 60 s), clock, argument, function source, '
           'file presence and restart (none, clean, kill) is symbolic; calls differing in what is called '
           '(2 modules, functions, classes, derived classes, methods, properties) and how arguments are '
           'spelled (9 spellings), with symbolic arguments; 4 (thorough: 5) calls of two functions or with two '
           'arguments that use one file with a symbolic content at each',
    outside='longer histories, more files per call, concurrent builds on one state file, '
            'changes within the granularity of modification times of files older than a second',
    assumptions=DB_ASSUME,
)
