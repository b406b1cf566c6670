def jobs(tier):
    q = tier == 'quick'
    names = ['macros', 'includes', 'warnings', 'compile flags', 'flags', 'link flags', 'exe link flags', 'machine flags', 'machine flags of links', 'flags first', 'ldlibs', 'external libs', 'library paths', 'platform options', 'debug', 'optimize', 'profile', 'arch']
    static = [n for n in names if n not in ('machine flags of links', 'library paths')]
    J = []
    shared = names + ['lib link flags']
    static.append('archiver')
    for i in range(6):
        J.append(dict(names=tuple(static[i::6])))
        J.append(dict(names=tuple(shared[i::6]), kind='shared'))
    cxx = 'fbuild.builders.cxx.gxx'
    J.append(dict(names=('macros', 'compile flags', 'link flags', 'debug'), levels=('call', 'builder'), runs=1, module=cxx))
    J.append(dict(names=('macros', 'flags', 'external libs', 'debug'), levels=('call', 'builder'), runs=1, module='fbuild.builders.c.clang', kind='shared'))
    J.append(dict(names=('external libs',), lib_only=True))
    J.append(dict(names=('external libs', 'library paths'), lib_only=True, kind='shared', levels=('call',)))
    J += [dict(names=('external libs',), lib_only='through another', kind=k, levels=('call',)) for k in ('static', 'shared')]
    if not q:
        for i in range(9):
            J.append(dict(names=tuple(static[i::9]), levels=('call',), runs=3))
            J.append(dict(names=tuple(shared[i::9]), levels=('builder',), kind='shared', runs=3))
        for m in (cxx, 'fbuild.builders.cxx.clangxx', 'fbuild.builders.c.clang'):
            J.append(dict(names=tuple(static), levels=('call',), module=m))
            J.append(dict(names=tuple(names), levels=('builder',), kind='shared', module=m))
    C = [dict(lists=('macros', 'includes')), dict(lists=('warnings', 'libpaths')), dict(lists=('machine_flags', 'external_libs'), link=False), dict(lists=('machine_flags', 'external_libs'), switches=('debug',)),
         dict(lists=('flags',), counts=(2, 2)), dict(lists=('ldlibs',), counts=(1, 2)), dict(lists=('macros', 'libpaths'), link=False, counts=(0, 2), switches=('optimize', 'profile')), dict(lists=('includes',), counts=(2, 1), source_dirs=False, length=2), dict(lists=('macros', 'flags'), counts=(1, 2), length=2)]
    if not q:
        C += [dict(lists=(k,), counts=(2, 3), link=l, length=2) for k in ('macros', 'includes', 'warnings', 'libpaths', 'machine_flags', 'external_libs', 'flags', 'ldlibs') for l in (True, False)]
        C += [dict(lists=('macros', 'includes', 'warnings', 'libpaths'), counts=(1, 1), switches=('debug', 'optimize', 'profile'))]
    return [('options:builds', j) for j in J] + [('options:command', j) for j in C]


SPEC = dict(
    jobs=jobs,
    require=['made', 'run', 'nothing done', 'options reach the tools', 'nothing else reaches the tools', 'what is given to a call counts', 'switched on', 'switched off',
             'flags keep their order', 'flags are tried before they are used', 'libraries come last', 'libraries are for the linker', 'sources are compiled', 'objects are linked', 'libraries are linked',
             'nothing is done if nothing has changed', 'reached obj', 'reached lib', 'reached exe', 'sources are given in their order', 'the output is named', 'everything is made', 'what libraries need is linked'],
    bounds='a static or shared library of one source and a program of one source, with one option of the sixteen lists and three switches that is given to the builder, to the call, to both or not, with one of two values in each of two builds; a library between the two, for external libraries; single commands with up to two lists of up to five values of one or two characters of a-d, given to the builder and to the call in any combination of equal and different ones',
    outside='what real compilers do with options; options whose values are two arguments (flags are not repeated); the order of include directories and libraries; msvc, avr, iphone and intel; several options at once in whole builds',
    assumptions=['gcc, ar and ranlib are modelled: what they were given, and the dependencies that gcc writes'],
)
