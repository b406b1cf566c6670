O = 'fbuild.builders.ocaml'
F = 'fbuild.builders.ocaml.ocamlfind'
BAT = 'fbuild.builders.ocaml.batteries'
PLAIN = ['includes', 'flags', 'compile flags', 'link flags', 'flags first', 'c compiler', 'c libraries', 'libraries', 'preprocessor', 'ocamldep flags', 'compile arguments', 'link arguments', 'custom', 'optimize flags', 'debug flags', 'debug', 'optimize']
FIND = ['packages', 'syntaxes', 'ppopts', 'linkpkg']


def jobs(tier):
    q = tier == 'quick'
    J = []
    n = PLAIN + ['profile flags']
    for i in range(3):
        J.append(('mlopts:builds', dict(names=tuple(PLAIN[i::3]))))
        J.append(('mlopts:builds', dict(names=tuple(n[i::3]), kind='Ocamlopt', tuples=True)))
    J.append(('mlopts:builds', dict(names=('flags', 'profiled', 'includes', 'debug'), kind='Ocamlcp', tuples=True)))
    J.append(('mlopts:builds', dict(names=('flags', 'libraries', 'custom', 'debug'), kind='Ocaml')))
    J.append(('mlopts:builds', dict(names=tuple(FIND) + ('flags', 'preprocessor'), module=F)))
    J.append(('mlopts:builds', dict(names=tuple(FIND) + ('flags first', 'ocamldep flags'), module=F, kind='Ocamlopt', tuples=True)))
    J.append(('mlopts:builds', dict(names=('packages', 'linkpkg'), module=F, kind='Ocaml')))
    J.append(('mlopts:builds', dict(names=('packages', 'flags first'), module=BAT, tuples=True)))
    J.append(('mlopts:builds', dict(names=('packages', 'syntaxes'), module=BAT, kind='Ocaml', runs=1)))
    for k in ('Ocamlc', 'Ocamlopt', 'Ocamlcp'):
        for m in (O, F):
            J.append(('mlopts:temporary', dict(kind=k, module=m)))
    P = [dict(kind='bytecode', outputs=True), dict(kind='native', outputs=True, change=('c1.ml',)), dict(kind='native', given=True, change=('c1.ml', 'm.ml')),
         dict(kind='bytecode', via='libs', given=True, root=True, debug=True, change=('c1.ml',)), dict(kind='native', via='libs', root=True, outputs=True, change=('c2.ml',)),
         dict(kind='both', via='single', change=('c1.ml', 'm.ml')), dict(kind='bytecode', via='single', outputs=True, root=True, debug=True, change=('c1.ml',)), dict(kind='native', via='single', root=True, change=('c2.ml',))]
    if not q:
        P += [dict(kind=k, via=v, given=g, root=x, outputs=True, change=('c1.ml', 'm.ml')) for k in ('bytecode', 'native') for v in ('objs', 'libs') for g in (False, True) for x in (False, True)]
        P += [dict(kind='both', via='single', root=True), dict(kind='bytecode', runs=3, change=('c1.ml',), outputs=True), dict(kind='native', via='libs', runs=3, change=('c1.ml',))]
    J += [('ocbuild:packs', p) for p in P]
    both = dict(kind='both')
    J += [('ocbuild:project', dict(both, modules=('a.ml',), flags=True, change=('a.ml',))), ('ocbuild:project', dict(both, modules=('a.mli', 'a.ml'), uses=False, outputs=True, change=('a.ml',)))]
    J += [('ocbuild:generated', dict(tool='ocamllex', levels=('call',))), ('ocbuild:generated', dict(tool='ocamlyacc', levels=('builder',), dir='d/'))]
    if not q:
        J += [('ocbuild:project', dict(both, uses=False, change=('a.ml', 'b.mli'))), ('ocbuild:generated', dict(tool='ocamllex')), ('ocbuild:generated', dict(tool='ocamlyacc'))]
        for k in ('Ocamlc', 'Ocamlopt'):
            for m in (O, F):
                ns = PLAIN + (FIND if m == F else []) + (['profile flags'] if k == 'Ocamlopt' else [])
                J += [('mlopts:builds', dict(names=tuple(ns[i::4]), kind=k, module=m, runs=3, levels=(l,))) for i in range(4) for l in ('builder', 'call')]
        J.append(('mlopts:builds', dict(names=('packages', 'syntaxes', 'ppopts', 'flags'), module=BAT, kind='Ocaml')))
    return J


SPEC = dict(
    jobs=jobs,
    require=['made', 'built', 'generated', 'everything is made', 'options reach the tools', 'nothing else reaches the tools', 'what is given to a call counts', 'switched on', 'switched off', 'reached dep', 'reached intf', 'reached obj', 'reached lib', 'reached exe',
             'nothing done', 'nothing is done if nothing has changed', 'made again', 'the right tool is run', 'libraries come first', 'sources are compiled and objects are linked', 'what is tried says if it works', 'programs are run', 'tried, works', 'tried, fails',
             'a build of correct sources succeeds', 'programs are in the build root', 'every module is linked once', 'what is built is what the sources say', 'native objects are linked as well', 'native objects are those of the sources', 'only what changed is compiled again', 'generated sources are in the build root'],
    bounds='a library of a module with an interface and a program of one module, with one of 17 options (ocamlopt: 18, ocamlfind: 21) that is given to the builder, to the call, to both or not, with one of two values, as lists or tuples, in each of two builds; a program of one module that uses a pack of two (given as sources, as objects, in a library or not, in another build root or not); two builds with contents that are unconstrained values, lost outputs and debugging that change; lexers and parsers with flags, build roots and lost outputs',
    outside='what the real tools do with options; several options at once; packages that change; packs of packs; threads (see C11, C12)',
    assumptions=['ocamldep, ocamlc, ocamlcp, ocamlopt, ocamlfind, ocamllex and ocamlyacc are modelled: what they read, write and were given', 'a native pack can only be made of objects that were compiled for it'],
)
