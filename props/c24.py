def jobs(tier):
    q = tier == 'quick'
    n = dict(kind='native')
    ab = dict(modules=('a.ml', 'b.ml'))
    J = [dict(modules=('a.ml',), outputs=True),
         dict(n, modules=('a.ml',), outputs=True, change=('a.ml',)),
         dict(modules=('a.mli', 'a.ml'), outputs=True, uses=False),
         dict(n, modules=('a.mli', 'a.ml'), uses=False),
         dict(modules=('a.ml',), flags=True, dir='d e'),
         dict(uses=False, change=('a.ml', 'b.mli')),
         dict(n, uses=False, change=('b.ml',)),
         dict(modules=('b.mli', 'b.ml', 'a.ml'), lib=False, uses=False, change=('a.ml',)),
         dict(ab, uses=False, order=True, change=('a.ml',)),
         dict(ab, uses=False, lib=False, change=('a.ml', 'b.ml'), order=True),
         dict(modules=('a.mli', 'a.ml'), lib=False, uses=False, runs=3, change=('a.mli',))]
    if not q:
        J += [dict(uses=False), dict(n, uses=False, change=('a.ml', 'b.mli')), dict(ab), dict(n, **ab, uses=False),
              dict(n, modules=('a.ml',), outputs=True), dict(n, modules=('a.mli', 'a.ml'), uses=False, outputs=True),
              dict(ab, order=True, change=('a.ml',)), dict(modules=('a.mli', 'a.ml'), lib=False, runs=3, change=('a.mli', 'a.ml'), uses=False),
              dict(ab, uses=False, outputs=True, change=('a.ml',))]
    return [('ocbuild:project', j) for j in J]


SPEC = dict(
    jobs=jobs,
    require=['built', 'compiled again', 'nothing compiled', 'a build of correct sources succeeds', 'what is built is what the sources say',
             'every module is linked once', 'modules are linked after those they use', 'only what changed is compiled again', 'a source is compiled once',
             'nothing is linked if nothing was compiled', 'native objects are linked as well', 'native objects are those of the sources'],
    bounds='a program of one module that uses up to two others, with or without interfaces, in a library or not, compiled to bytecode or native code; two (some: three) builds; contents are unconstrained values, and which module or interface uses which, debugging, lost outputs and the order of independent compilations vary',
    outside='what the real compilers do (ocamldep, ocamlc and ocamlopt are modelled: what they read and write, and which other modules an object depends on); packs, ocamllex, ocamlyacc, ocamlfind; sources that are added or removed; threads (see C11, C12)',
    assumptions=['an object depends on the interfaces (native: and implementations) of the modules its source names, and they on those theirs name', 'a file that changes has another time (see C05 for when it is looked at)'],
)
