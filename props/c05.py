from props.common import DB_ASSUME


def jobs(tier):
    J = []
    for e in ('pickle', 'sqlite', 'cache'):
        J.append(('dbcontent:content', dict(engine=e)))
        if tier != 'quick':
            J.append(('dbcontent:content', dict(engine=e, rounds=3, fillers=(0, 65520), tails=(0, 70000))))
            J.append(('dbcontent:content', dict(engine=e, rounds=2, fillers=(65536 * 4, 65536 * 20 - 10, 3000000),
                                                tails=(0, 1, 2000000))))
    J.append(('dbcontent:digest', dict(sizes=[0, 1, 65000, 65536, 131072, 1000000])))
    return J


SPEC = dict(
    jobs=jobs,
    require=['hit', 'ran', 'a change of the bytes is noticed', 'an unchanged file is no change',
             'digests are equal exactly for equal bytes'],
    bounds='a source file (declared or registered) up to 1.1 MB (5 MB thorough) rewritten once (twice in thorough) '
           'between calls: other bytes at a symbolic position class (start, across the first 64 KiB boundary, '
           'middle, end), longer, shorter, shifted or only touched; modification times and clocks symbolic in '
           'quarter seconds over 400 s, in any order',
    outside='files changed while they are being read; changes that keep the modification time of a file older '
            'than a second',
    assumptions=DB_ASSUME,
)
