def jobs(tier):
    q = tier == 'quick'
    J = [('platopts:options', dict(entries=1, keys=1, length=1)),
         ('platopts:options', dict(entries=1, keys=1, length=1, pass_platform=True, features=1)),
         ('platopts:options', dict(entries=2, kinds=('list',), features=1, fixed=True, length=2)),
         ('platopts:options', dict(entries=2, kinds=('set', 'tuple'), features=1, fixed=True, length=1)),
         ('platopts:options', dict(entries=2, kinds=('str',), features=1, fixed=True, length=1, keys=2)),
         ('platopts:options', dict(entries=3, kinds=('list',), features=1, fixed=True, length=1))]
    if not q:
        J += [('platopts:options', dict(entries=2, keys=1, length=1)),
              ('platopts:options', dict(entries=2, keys=2, length=1, kinds=('list', 'set'), features=1, fixed=True)),
              ('platopts:options', dict(entries=2, kinds=('list',), features=1, length=3)),
              ('platopts:options', dict(entries=2, kinds=('str',), features=1, length=2)),
              ('platopts:options', dict(entries=3, kinds=('set', 'str'), features=1, fixed=True, length=1))]
    return J


SPEC = dict(
    jobs=jobs,
    require=['applied', 'options of matching platforms apply', "the caller's values stay as they are",
             'other arguments are passed on', 'the options themselves are not passed on'],
    bounds='up to 3 entries of options for 2 features of platforms, each required, excluded or neither; 2 keyword arguments; '
           'lists, tuples, sets and strings of up to 2 (thorough: 3) elements, any of which may be equal; 2 calls with the same options',
    outside='how the platform is found out (guess_platform); values of other types, or of different types for the same argument',
    assumptions=[],
)
