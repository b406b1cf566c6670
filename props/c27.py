def jobs(tier):
    q = tier == 'quick'
    J = [('guesses:guess', dict(options=False, platforms=('set', None) if q else ('set', 'frozenset', None))),
         ('guesses:guess', dict(entries=1, wanted=('both', 'static'), platforms=('set',), exes=(None, './cc') if q else (None, 'gcc', 'clang', 'icc', './cc'))),
         ('guesses:guess', dict(entries=1, options=False, wanted=('both', 'shared'), platforms=('set',), exes=('gcc', 'clang', 'icc'))),
         ('guesses:guess', dict(entries=2, oses=(), platforms=('set',), wanted=('both', 'shared')))]
    if not q:
        J += [('guesses:guess', dict(entries=3, oses=('linux',), options=False, platforms=('set',)))]
    J += [('guesses:tables', dict(lang=k)) for k in ('c', 'cxx')]
    J += [('guesses:make', dict() if q else dict(few=False))]
    return J


SPEC = dict(
    jobs=jobs,
    require=['guessed', 'none works', 'unknown', 'some', 'none', 'made', 'refused', 'a builder is tried once', 'an unknown compiler is an error',
             'only the builders of the platform are tried, in order', 'the builder gets what was given', 'the builder gets the platform', 'the builder gets the options of its platform and compiler',
             'the first builders that work are used', 'only what is asked for is tried', 'it is an error if no builder works', 'the platform that is given stays as it is',
             'the options that are given stay as they are', 'builders of the language are used', 'the builders that are used exist', 'builders of the platform are used',
             'the builder for the platform comes first', 'static builders are static and shared builders are shared', 'both are of one compiler', 'every compiler is tried',
             'a builder can be made if its compiler works', 'a builder is only made if its compiler has the version that is required',
             'static builders build static libraries, shared builders shared ones', 'a builder builds what it is given', 'only the tools of the builder are run',
             'the processor is the one that is given', 'a cross compiler uses its own tools and runs nothing it builds'],
    bounds='tables of up to two (thorough: three) entries, each of which needs any of two platforms and a compiler and works or not; the tables of C and C++ on nine platforms, where every builder works or not; twelve kinds of builders that are made and build a project of two sources, with four versions required',
    outside='builders for the iPhone and for Visual C++ (cannot be made on this platform); what the flags do in real compilers; the configuration checks of a builder (see C28)',
    assumptions=['a compiler, ar and ranlib are modelled: what they read and write'],
)
