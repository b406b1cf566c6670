def jobs(tier):
    q = tier == 'quick'
    x = ('x.h',)
    no = dict(macros=False, members=False, outputs=False)
    J = [dict(no),
         dict(no, macros=True, change='headers', headers=x),
         dict(no, members=True, change='sources', headers=x),
         dict(no, outputs=True, headers=x),
         dict(no, outputs=True, headers=x, change='headers', kind='shared'),
         dict(no, nested=True, change='headers', kind='shared'),
         dict(no, nested=True, dir='d', change='headers', headers=('x y.h', 'a#$b.h')),
         dict(no, dir='d e', headers=('x y.h',), kind='shared', change='headers'),
         dict(no, headers=x, runs=3, change='headers'),
         dict(no, headers=x, broken=True),
         dict(no, headers=x, broken=True, runs=3, change='headers', kind='shared')]
    if not q:
        J += [dict(no, members=True, headers=x, kind='shared'),
              dict(members=True, outputs=True, macros=True, headers=x),
              dict(members=True, outputs=True, macros=True, headers=x, kind='shared'),
              dict(nested=True, members=False, outputs=True, macros=True),
              dict(nested=True, members=False, outputs=True, macros=True, kind='shared'),
              dict(no, nested=True, runs=3),
              dict(no, broken=True, runs=3, members=True, headers=x),
              dict(no, outputs=True, macros=True, runs=3, headers=x)]
    J = [('cbuild:project', j) for j in J]
    J += [('cbuild:chain', j) for j in chains(q)]
    return J


def chains(q):
    J = [dict(kinds=('static', 'static')), dict(kinds=('shared', 'shared'), dirs=('a', 'b')), dict(kinds=('static', 'shared')), dict(kinds=('shared', 'static')), dict(given='builder')]
    if q:
        return [dict(j, edges=((1, 0),)) for j in J[:-1]] + [dict(kinds=('static', 'static'), runs=1, extra=True), dict(kinds=('shared', 'shared'), runs=1, given='builder'), dict(kinds=('static', 'static', 'static'), runs=1)]
    return J + [dict(kinds=k, edges=((1, 0),), **o) for k in (('static', 'static'), ('shared', 'shared')) for o in (dict(extra=True), dict(lost=True), dict(given='builder'))] + [
        dict(kinds=('static', 'static', 'static'), runs=1), dict(kinds=('shared', 'static', 'shared'), runs=1, dirs=('a', 'b', 'c'))]


SPEC = dict(
    jobs=jobs,
    require=['built', 'compiled again', 'nothing compiled', 'failed', 'what is built is what the sources say',
             'everything is compiled with the options given now', 'only what changed is compiled again', 'a source is compiled once',
             'nothing is linked if nothing was compiled', 'a library comes before those it needs', 'libraries that libraries need are linked', 'a library is linked once',
             'a program finds its libraries when it runs', 'nothing is done if nothing has changed', 'linked', 'not linked', 'outputs are in the build directory', 'a build fails if a source is wrong'],
    bounds='a program of one source and a static or shared library of up to two, up to two headers (included or not, by each other or not, with names that are escaped in makefiles), two (thorough: also three) builds; contents are unconstrained values; two (thorough: also three) libraries, static or shared, that use each other or not, and a program; macros, members of the library and lost outputs vary',
    outside='what real compilers and linkers do (gcc, ar and ranlib are modelled: what they read and write, and the dependencies that gcc writes); builds of other languages; threads (see C10, C12); two sources or libraries with one base name; system headers; running a program with the directories of libraries that are given to the builder',
    assumptions=['a modelled gcc writes its dependencies as gcc 13 does, including how names are escaped', 'a file that changes has another time (see C05 for when it is looked at)'],
)
