def jobs(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    J = [('progs:find', dict(dirs=1 if q else 2)), ('progs:find', dict(names=('p',))), ('progs:find', dict(given=False, dirs=1 if q else 2))]
    J += [('progs:version', dict(which=(k,), n=n)) for k in ('is', 'least', 'most')]
    J += [('progs:version', dict(which=('least', 'most'), n=2)), ('progs:version', dict(which=('is',), letters=True, n=n))]
    J += [('progs:tells', dict(n=n)), ('progs:tells', dict(tool='clang', n=n)), ('progs:flags', dict(n=n)), *(('progs:told', dict(tool=t, n=n)) for t in ('llvm', 'sdl', 'pkg_config'))]
    if not q:
        J += [('progs:version', dict(which=(k,), n=4, parts=3)) for k in ('is', 'least', 'most')]
        J += [('progs:version', dict(which=('is', 'least', 'most'), n=2))]
    return [(h, k) for h, k in J]


SPEC = dict(
    jobs=jobs,
    require=['found', 'missing', 'accepted', 'refused', 'a program that is there is found', 'a program that is missing is an error', 'the first name is found in the first directory',
             'the error tells what was looked for', 'a version that is as required is accepted', 'another version is an error', 'a compiler is asked for its version',
             'the version is the one the compiler tells', 'the flags are those that are printed', 'the package is asked for', 'the tool is asked for it', 'it is what the tool tells'],
    bounds='up to two names and two directories; versions of up to 3 (thorough: 4) characters, required versions of up to 2 (thorough: 3) parts; up to 3 (thorough: 4) unconstrained characters in the package of a compiler, and in what pkg-config, llvm-config and sdl-config print',
    outside='what the output of real tools looks like in other versions; comparing versions with letters as a bound (a number is not comparable with letters); whether a program can be executed; changes of PATH between builds; packages with nested parentheses',
    assumptions=['gcc and clang print their versions as gcc 13 and clang 18 do, with any package or vendor'],
)
