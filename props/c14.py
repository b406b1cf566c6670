def jobs(tier):
    q = tier == 'quick'
    J = []

    def add(**k):
        J.append(('args:binding', k))
    add(maxpos=2, maxkw=2)
    add(maxpos=2, maxkw=1, method=True)
    add(maxpos=1, maxkw=1, wrapped=True)
    add(maxpos=1, maxkw=1, special=True)
    if not q:
        add(maxpos=2, maxkw=2, special=True)
        add(maxpos=3, maxkw=2)
        add(maxpos=3, maxkw=2, extra=3, method=True)
        add(maxpos=2, maxkw=2, wrapped=True)
        add(maxpos=4, maxkw=1)
    return J


SPEC = dict(
    jobs=jobs,
    require=['right calls', 'wrong calls', 'wrong calls are TypeErrors', 'every parameter is bound',
             'parameters are bound like in a Python call', 'normalized arguments make the same call'],
    bounds='functions and methods, also wrapped ones, with up to 2 (thorough: 4) positional and 2 keyword-only parameters, any of which have '
           'defaults, with and without *args and **kwargs; calls with one more positional argument than there are parameters '
           'and any subset of the parameters and an unknown name by keyword; arbitrary values (compared by equality only), and None for all arguments or all defaults',
    outside='positional-only parameters, partial objects and builtins; more parameters',
    assumptions=['the oracle is the call protocol of the interpreter itself: the function is called and its bindings compared'],
)
