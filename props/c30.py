def jobs(tier):
    q = tier == 'quick'
    J = [('java', dict(lost=('.class', '.jar'))), ('java', dict(two=True, package='p')), ('java', dict(broken=True, builder_paths=True)), ('java', dict(options=True)), ('java', dict(manifest=True, lost=('lib.jar',))),
         ('haskell', dict(lost=('.o', 'prog'))), ('haskell', dict(broken=True, dir='d')), ('haskell', dict(flags=True, **(dict(lost=()) if q else dict(lost=('.o',))))),
         ('bison', dict()), ('bison', dict(options=True, lost=())), ('bison', dict(suffix='.cc', broken=True)), ('bison', dict(given=('bflags', 'suffix', 'buildroot'), lost=())), ('bison', dict(given=('dst', 'verbose', 'suffix'), lost=())),
         ('nm', dict()), ('nm', dict(n=2, runs=2)), ('nm', dict(n=2, kinds=('T', 'D', 'w', 'B', 'R', 'S'))),
         ('compilers', dict(lost=('a', 'b'))), ('compilers', dict(which='static felix', broken=True)), ('compilers', dict(which='llvm-as', options=True)), ('compilers', dict(which='llc', lost=('a',)))]
    J += [('compilers', dict(which=x, given=g)) for x, g in (('llc', ('bflags', 'arch', 'filetype')), ('llc', ('relocation_model', 'pre_flags')), ('felix', ('bflags', 'bincludes', 'includes')), ('felix', ('debug', 'bdebug', 'static')), ('static felix', ('buildroot', 'static', 'stdout')), ('llvm-as', ('bflags', 'pre_flags')))]
    J += [('jvm:options', k) for k in (dict(given=('flags', 'bflags', 'buildroot')), dict(given=('target', 'btarget', 'debug_flags', 'bdebug')), dict(given=('debug', 'bdebug')), dict(given=('classpaths', 'bclasspaths', 'sourcepaths')), dict(given=('classpaths', 'bclasspaths'), jars=True), dict(lang='scala', given=('optimize', 'boptimize')), dict(given=('sourcepaths', 'bsourcepaths')),
          dict(given=('cwd', 'quieter', 'stderr_quieter'), warn=True, broken=True), dict(lang='scala', given=('flags', 'optimize', 'target')), dict(lang='scala', given=('debug', 'buildroot')), dict(lang='scala', given=('btarget',), warn=True, broken=True))]
    J += [('jvm:' + h, dict(lang=l)) for l in ('java', 'scala') for h in ('refused', 'running')]
    if not q:
        J += [('jvm:options', k) for k in (dict(lang='scala', given=('classpaths', 'bclasspaths'), jars=True), dict(given=('classpaths',), jars=True, runs=3), dict(given=('target', 'btarget', 'debug', 'bdebug', 'debug_flags')), dict(lang='scala', given=('flags', 'bflags', 'optimize', 'debug', 'buildroot')), dict(given=('flags', 'buildroot'), runs=3))]
        J += [('java', dict(runs=3, lost=('.class', '.jar'))), ('java', dict(runs=3, two=True)), ('java', dict(runs=3, broken=True, builder_paths=True)), ('java', dict(options=True, two=True, lost=('.class',))),
              ('haskell', dict(runs=3)), ('haskell', dict(runs=3, broken=True)), ('bison', dict(runs=3)), ('bison', dict(runs=3, suffix='.cpp', broken=True, lost=())), ('nm', dict(n=4, cycles=False)), ('nm', dict(n=4)), ('nm', dict(n=3, runs=2)),
              *(('compilers', dict(which=x, runs=3, lost=('a',), broken=b)) for x in ('felix', 'static felix', 'llvm-as', 'llc') for b in (False, True))]
    return [(h if ':' in h else 'others:' + h, k) for h, k in J]


SPEC = dict(
    jobs=jobs,
    require=['java', 'haskell', 'bison', 'nm', 'felix', 'static felix', 'llvm-as', 'llc', 'failed', 'nothing done', 'ordered', 'cycle', 'a build fails if a source is wrong', 'a library has the classes there are now',
             'what is built is what the sources say', 'everything is compiled with the options given now', 'a program is compiled with the libraries there are now', 'a class is run with its libraries', 'what compiles is told',
             'nothing is done if nothing has changed', 'only what changed is compiled again', 'everything is made', 'every object is listed once', 'an object comes before those it needs', 'objects are looked at once', 'outputs are in the build directory', 'a program is run', 'java options', 'scala options', 'what the compiler tells is shown', 'a compiler that does not work is refused', 'refused', 'accepted', 'running java', 'running scala', 'a library is run', 'a script is run', 'the home of Java is found'],
    bounds='a Java library of one source with one or two classes and a program of one class that uses it or not; a Haskell program of one or two modules; one bison source; one or two Felix or LLVM sources, with up to three options of the builder and of the call that come and go; two (thorough: also three) builds with unconstrained contents; up to three (thorough: four) objects that need symbols of each other in any way; two (thorough: also three) builds of a Java or Scala library of two sources in which options of the builder and of the call come and go and the contents of jars are unconstrained',
    outside='what the real tools do beyond the model; Haskell modules that import each other (their order and changes of interfaces are not tracked), Felix sources that include others; Java sources that need each other; directories as class paths whose contents change; tools that are upgraded',
    assumptions=['javac, scalac, scala, java, jar, ghc, bison, nm, flx, llvm-as and llc are modelled: what they read, write and print'],
)
