META = ['**', '??', '[[', ']]', '!!', '--', '^^', chr(92) * 2, 'ad']


def jobs(tier):
    q = tier == 'quick'
    J = []

    def add(**k):
        J.append(('globs:fnmatch', k))
    add(maxpat=2, maxname=2)
    add(minpat=3, maxpat=3, maxname=2, alphabet=META)
    add(minpat=4, maxpat=4, maxname=2, prefix='[', alphabet=[']]', '!!', '--', '^^', 'ad'])
    add(minpat=3, maxpat=4, maxname=3, prefix='{', alphabet=['{{', '}}', ',,', '**', 'ac'])
    add(minpat=2, maxpat=3, maxname=2, prefix='{', alphabet=['[[', ']]', ',,', '}}', '..', 'ac'])
    add(minpat=2, maxpat=4, maxname=2, prefix='{', alphabet=[chr(92) * 2, ',,', '}}', 'ac'])
    add(minpat=1, maxpat=2, maxname=2, names=2, alphabet=['**', '??', '[[', ']]', '!!', 'ad'])
    add(minpat=1, maxpat=2, maxname=1, pats=2, alphabet=['**', '??', '..', 'az', 'AZ'])
    if not q:
        add(minpat=3, maxpat=3, maxname=3, alphabet=META + ['{{', '}}', ',,', '..', '++', '||', '((', '))'])
        add(minpat=4, maxpat=4, maxname=4, alphabet=['**', '??', 'ac'])
        add(minpat=5, maxpat=5, maxname=2, prefix='[', alphabet=[']]', '!!', '--', '^^', '[[', 'ad'])
        add(minpat=5, maxpat=5, maxname=4, prefix='{', alphabet=['{{', '}}', ',,', '**', 'ac'])
        add(minpat=4, maxpat=4, maxname=2, prefix='{', alphabet=['[[', ']]', ',,', '}}', '{{', 'ac'])
        add(minpat=1, maxpat=2, maxname=3, names=3, alphabet=['**', '??', '[[', ']]', '!!', 'ad'])
        add(maxpat=2, maxname=4)
    return J


SPEC = dict(
    jobs=jobs,
    require=['matches', 'does not match', 'a name that does not match is not reported',
             'a name that matches is reported', 'nothing else is reported'],
    bounds='names of up to 3 (thorough: 4) arbitrary ASCII characters, including newlines; patterns of up to 2 arbitrary ASCII '
           'characters; of 3 of * ? [ ] ! - ^ backslash and letters; bracket expressions of up to 5 and braces of up to 5 '
           '(thorough: 6) characters; filter() of 2 (thorough: 3) names, and two patterns in a row (the cache)',
    outside='bytes, non-ASCII characters, systems whose file names are not case-sensitive, bracket expressions with descending ranges (which have no meaning)',
    assumptions=['regular expressions are parsed by the standard library; whether they match is encoded as a formula over the '
                 'characters of the name by symx/symre.py, which is validated against the real interpreter on a model of sampled paths'],
)
