OPTIONS = ({}, {'external_libs': ['m']}, {'flags': ['-fx']}, {'libpaths': ['w/p'], 'external_libs': ['q']})


def jobs(tier):
    q = tier == 'quick'
    h = ('h.h',)
    J = [dict(kind=k) for k in ('header', 'macro', 'struct', 'timeout')]
    J += [dict(kind=k, headers=h) for k in ('function', 'type', 'variable')] + [dict(kind=k, headers=(None,)) for k in ('program', 'output')]
    J += [dict(kind=k, runs=1) for k in ('function', 'names', 'type', 'int_type', 'variable', 'outputs')]
    J += [dict(kind=k, headers=h, again=True) for k in ('function', 'struct')] + [dict(kind='variable', headers=h, options=OPTIONS, runs=1)]
    J += [dict(kind='macro', headers=h, options=OPTIONS[:3])]
    if not q:
        J += [dict(kind=k) for k in ('function', 'names', 'type', 'int_type', 'variable', 'program', 'output', 'outputs')]
        J += [dict(kind=k, headers=h, options=OPTIONS) for k in ('function', 'variable')] + [dict(kind='header', runs=3, headers=h), dict(kind='macro', runs=3, headers=h)]
        J += [dict(kind=k, headers=h, again=True) for k in ('names', 'type', 'variable', 'output')]
    return [('configs:tests', j) for j in J] + [('configs:tries', {}), ('configs:exist', dict(items=2 if q else 3))]


SPEC = dict(
    jobs=jobs,
    require=['a test tells what the compiler can do', 'results can be compared and printed', 'a test is made once', 'a test is linked with what is given', 'all tests of a class are told', 'get tells what a test tells',
             'known', 'yes', 'no', 'what works is true', 'what fails is false', 'other failures are passed on', 'what a program prints is told', 'checks are logged', 'what is asked for is tried', 'what exists is found',
             'works', 'fails', 'error', 'exists', 'does not exist'],
    bounds='classes with a header or none and one test of any of seven kinds (two to five definitions of each), up to two (thorough: three) builds between which the definition, the header and the options may change; which headers, declarations, symbols and types there are, '
           'alignments and sizes out of two, and what programs do is unconstrained; eleven functions that try something, with every outcome of each command',
    outside='what real compilers accept (a model reads the test programs: includes, preprocessor conditions, declarations, calls by the number of their arguments, members, output); installed headers and libraries that change between builds (--force-configuration is for that); '
            'what the descriptions of particular libraries in fbuild.config say; namespaces of C++',
    assumptions=['a program that calls a function that is not declared does not compile'],
)
