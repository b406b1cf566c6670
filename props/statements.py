SYMEX = 'symbolic execution of the real Python sources (path forking, z3 decides every branch and assertion)'
NOTE = ('Within the stated bounds every value of the symbolic inputs is covered: each branch on a symbolic value '
        'and each assertion is decided by z3 under the path condition, on the code as it is in /repo now. '
        'Counterexamples are replayed under the deployment interpreter before they are reported. ')
PROPERTIES = [
 dict(id='C01', title='A cached result is never stale',
  statement='Whenever a call of a cached function, method, property or constructor returns, its result equals what running '
   'it now would give for these arguments, its current source text and the current contents of the source files it '
   'declared or registered, whichever database engine is used and however often the build was restarted in between. '
   'After the call all destination files it declared, returned or registered exist, and the reported sources and '
   'destinations are exactly these files. Calls of different functions, objects or arguments are never confused.',
  over=['histories', 'inputs', 'configurations'],
  quant='every sequence of calls, file edits, deletions, clock values, source edits and restarts within the bounds, on every engine',
  why='The tests cache one function in memory and run a few example builds once; staleness needs a particular history of edits, restarts and modification times.',
  files=['lib/fbuild/db/database.py', 'lib/fbuild/db/backend.py', 'lib/fbuild/db/cache_backend.py', 'lib/fbuild/db/pickle_backend.py', 'lib/fbuild/db/sqlite_backend.py', 'lib/fbuild/db/__init__.py'],
  mechanism=[('what makes a call dirty', 'lib/fbuild/db/database.py Database.call'), ('file records', 'lib/fbuild/db/backend.py Backend.add_file, check_call_file, check_external_files')],
  observe=['results and files after ctx.db calls'], technique=SYMEX, note=NOTE + 'File systems, digests and modification-time granularity are assumed as listed in the evidence.'),
 dict(id='C02', title='An unchanged call is not run again',
  statement='A call that was made before with equal arguments is answered without running the function, in the same or any '
   'later run that found the state saved, as long as the function, the cached functions it uses, and the contents of its '
   'source files are the same and its destinations still exist. Touching a file without changing it, spelling the '
   'arguments differently, or changing unrelated files, functions and calls does not cause a rerun. The answer is the value '
   'that was returned before.',
  over=['histories', 'inputs', 'configurations'],
  quant='every sequence of calls, edits, touches and restarts within the bounds, on every engine',
  why='Tests only call one function twice in one process; spurious reruns show up only after particular histories and restarts.',
  files=['lib/fbuild/db/database.py', 'lib/fbuild/db/backend.py', 'lib/fbuild/db/cache_backend.py', 'lib/fbuild/db/pickle_backend.py', 'lib/fbuild/db/sqlite_backend.py', 'lib/fbuild/functools.py'],
  mechanism=[('what makes a call dirty', 'lib/fbuild/db/database.py Database.call'), ('argument binding', 'lib/fbuild/functools.py bind_args'), ('saving calls', 'lib/fbuild/db/backend.py Backend.cache')],
  technique=SYMEX, note=NOTE + 'Same assumptions as C01.'),
 dict(id='C03', title='Editing a function invalidates everything that depends on it',
  statement='When the source of a cached function, method, property or constructor changes between two runs, or a function is removed, '
   'neither its cached results nor those of any cached function that called it, directly or through others, in any call '
   'or run, are used again. This holds for any call graph, also when it is recursive, depends on arguments, or when a '
   'callee lives in a module that was not imported yet.',
  over=['programs', 'histories'],
  quant='every call graph between the functions and every history of edits, calls and restarts within the bounds',
  why='The tests never change a function between runs; the dependency bookkeeping is only visible over several runs with edits in particular orders.',
  files=['lib/fbuild/db/database.py', 'lib/fbuild/db/backend.py', 'lib/fbuild/db/cache_backend.py', 'lib/fbuild/db/sqlite_backend.py'],
  mechanism=[('call stack of cached functions', 'lib/fbuild/db/database.py Database.call'), ('recursive check of dependents', 'lib/fbuild/db/backend.py Backend.check_function, cache')],
  technique=SYMEX, note=NOTE + 'Source text changes are modelled as changes of a literal in the function body.'),
 dict(id='C04', title='A failed call leaves no trace in the cache',
  statement='A cached call that raises is not answered from the cache: the next call runs the function again, unless the function and its source files are again as they were when an earlier call was successful. A failure, '
   'whether it reaches the top or is handled by a calling cached function, does not change what other calls return later '
   'or what they depend on.',
  over=['fault_sequences', 'histories', 'programs'],
  quant='every choice of which runs of which functions fail, every call graph and every later history within the bounds',
  why='No test makes a cached function fail.',
  files=['lib/fbuild/db/database.py', 'lib/fbuild/db/backend.py'],
  mechanism=[('call stack of cached functions', 'lib/fbuild/db/database.py Database.call')],
  technique=SYMEX, note=NOTE),
 dict(id='C05', title='File changes are recognised by content',
  statement='A source file counts as changed exactly if its bytes differ from those the cached call used: any difference at any position '
   'of a file of any size, or in its length, is noticed whenever the modification time moved in either direction or the '
   'file is at most a second old, and a file with the same bytes is not a change whatever its modification time.',
  over=['inputs', 'histories'],
  quant='every content, position of the difference, file size class, modification time and clock within the bounds',
  why='The tests do not modify source files between calls.',
  files=['lib/fbuild/db/backend.py', 'lib/fbuild/path.py'],
  mechanism=[('mtime shortcut', 'lib/fbuild/db/backend.py Backend.add_file'), ('digest', 'lib/fbuild/path.py Path.digest')],
  technique=SYMEX, note=NOTE + 'Digest algorithms are assumed injective.'),
 dict(id='C06', title='A build that dies leaves a usable state',
  statement='Wherever a build dies, the next build can open the state, gives correct results, and still has every result that an earlier '
   'build saved and that nothing has changed; it never sees a partly written state. After the next successful build the state is complete again.',
  over=['crash_points', 'histories'],
  quant='every point between operations on the state file, every torn write prefix class, every edit before the build that dies',
  why='No test kills a build.',
  files=['lib/fbuild/db/pickle_backend.py', 'lib/fbuild/db/sqlite_backend.py', 'lib/fbuild/db/backend.py'],
  mechanism=[('write then replace', 'lib/fbuild/db/pickle_backend.py PickleBackend.close'), ('transactions', 'lib/fbuild/db/sqlite_backend.py SqliteBackend.cache, close')],
  technique='symbolic execution of the real Python sources with a symbolic crash point; z3 decides branches and assertions', note=NOTE + 'Process death, not power loss; sqlite itself is trusted.'),
 dict(id='C07', title='A state of another format is discarded, not used',
  statement='A state file written by another version of the state format is never used to answer a call: the build starts from an empty state, also '
   'if an earlier build died while replacing the old file, and saves a state that the next build uses. The same version is used, and state '
   'that refers to classes or modules which no longer exist does not stop the build.',
  over=['configurations', 'crash_points', 'histories'],
  quant='older, newer and missing version stamps, every point where a build replacing the state dies, missing classes and modules',
  why='No test opens an existing state of another version.',
  files=['lib/fbuild/db/backend.py', 'lib/fbuild/db/pickle_backend.py', 'lib/fbuild/db/sqlite_backend.py'],
  mechanism=[('version check', 'lib/fbuild/db/backend.py Backend.connect')],
  technique='symbolic execution of the real Python sources with a symbolic crash point; z3 decides branches and assertions', note=NOTE + 'States of other versions are modelled with the current layout and another stamp.'),
 dict(id='C08', title='Deleting cached data removes exactly that data',
  statement='Deleting a function from the database makes its calls, and those of the cached functions that use it, run again; deleting a file makes '
   'the calls that declared or registered it as a source run again; no other call is affected, on any engine, also after restarts. The deletion reports whether there '
   'was anything to delete.',
  over=['histories', 'configurations'],
  quant='every set of earlier calls, every deleted function or file, every restart before and after, on every engine',
  why='No test deletes anything from the database.',
  files=['lib/fbuild/db/cache_backend.py', 'lib/fbuild/db/sqlite_backend.py', 'lib/fbuild/db/database.py', 'lib/fbuild/main.py'],
  mechanism=[('deletion', 'delete_function and delete_file of the backends')],
  technique=SYMEX, note=NOTE),

 dict(id='C09', title='Cached calls can run concurrently',
  statement='Cached functions that are called at the same time by tasks of the scheduler, directly or through other cached '
   'functions and nested maps, and that wait in interruptible blocks in any order, return what they would return on their own, '
   'and leave the database in a state in which every later run notices changes of any function used by any of them.',
  over=['schedules', 'programs', 'histories'],
  quant='every interleaving of the tasks, every call graph and every later change of functions within the bounds',
  why='Overlapping calls need long running commands in several threads, and a wrong record only shows in a later run with a particular edit.',
  files=['lib/fbuild/db/database.py', 'lib/fbuild/db/backend.py', 'lib/fbuild/sched.py', 'lib/fbuild/rpc.py'],
  mechanism=[('who called whom', 'lib/fbuild/db/database.py Database.call'), ('saving overlapping calls', 'lib/fbuild/db/backend.py Backend.cache')],
  technique=SYMEX, note=NOTE + 'Thread interleavings are symbolic choices of a virtual thread runtime.'),
 dict(id='C10', title='Mapping runs every task once, one at a time, and returns the results in order',
  statement='Scheduler.map calls the function exactly once for every input and returns the results in the order of the inputs, '
   'for any number of threads, also when tasks map themselves. Tasks only run at the same time as others inside interruptible '
   'blocks and nested maps. It neither deadlocks nor spins forever, and after a shutdown no thread is left.',
  over=['schedules', 'inputs', 'configurations'],
  quant='every interleaving of the worker threads and the mapping thread within the preemption bound',
  why='Tests observe whatever schedule the machine happens to produce.',
  files=['lib/fbuild/sched.py'],
  mechanism=[('evaluation loop', 'lib/fbuild/sched.py Scheduler._evaluate'), ('workers', 'lib/fbuild/sched.py WorkerThread'), ('controlling lock', 'lib/fbuild/sched.py Scheduler.interruptible')],
  technique=SYMEX, note=NOTE + 'Thread interleavings are symbolic choices of a virtual thread runtime.'),
 dict(id='C11', title='Dependencies are built before their dependents',
  statement='Scheduler.map_with_dependencies runs the function exactly once for every source, after it finished for all the sources '
   'this one depends on, and returns the results such that dependencies come before their dependents. Dependencies that are not '
   'among the sources are ignored. The order of the results depends on the graph alone, not on the schedule.',
  over=['inputs', 'schedules'],
  quant='every acyclic dependency graph, order of the sources and interleaving within the bounds',
  why='The tests use one graph; ordering errors depend on which of several tasks finishes first.',
  files=['lib/fbuild/sched.py'],
  mechanism=[('ready tasks', 'lib/fbuild/sched.py Scheduler._evaluate, Task.can_run'), ('order of the results', 'lib/fbuild/sched.py Scheduler.map_with_dependencies')],
  technique=SYMEX, note=NOTE + 'Thread interleavings are symbolic choices of a virtual thread runtime.'),
 dict(id='C12', title='Failures and dependency loops end the build cleanly',
  statement='When a mapped function fails, map and map_with_dependencies raise the exception of a task that failed, after which none of '
   'their tasks runs any more; a failure is never lost, no thread dies or hangs, and the scheduler can be used again. When sources depend '
   'on themselves, directly or through others, a DependencyLoop that names only such sources is raised, and nothing that '
   'depends on a loop is run.',
  over=['fault_sequences', 'schedules', 'inputs'],
  quant='every set of failing tasks, every cyclic graph and every interleaving within the bounds',
  why='Tests make one task fail and use one loop; what other threads do in the meantime is left to chance.',
  files=['lib/fbuild/sched.py'],
  mechanism=[('propagation of exceptions', 'lib/fbuild/sched.py Scheduler._evaluate, Task.run'), ('loops', 'lib/fbuild/sched.py DependencyLoop')],
  technique=SYMEX, note=NOTE + 'Thread interleavings are symbolic choices of a virtual thread runtime.'),

 dict(id='C13', title='Remote calls are answered',
  statement='Every call made through fbuild.rpc.RPC while it runs is handled exactly once, in its own thread and one at a time, and '
   'returns the value, or raises the exception, the handler gave for this very call; calls of one thread are handled in '
   'order. Calls that come before the start or after the shutdown raise RPCNotRunning and are not handled. A shutdown waits for the calls that '
   'were accepted, may come from several threads at any time, and leaves nobody waiting.',
  over=['schedules', 'inputs'],
  quant='every interleaving of callers, handler and shutdown within the preemption bound',
  why='The tests have one caller and shut down when nothing is going on.',
  files=['lib/fbuild/rpc.py', 'lib/fbuild/db/database.py'],
  mechanism=[('calls and shutdown', 'lib/fbuild/rpc.py RPC.call, run, _process, join')],
  technique=SYMEX, note=NOTE + 'Thread interleavings are symbolic choices of a virtual thread runtime.'),

 dict(id='C14', title='Arguments are bound like Python binds them',
  statement='fbuild.functools.bind_args and normalize_args, with which calls of cached functions and persistent objects are '
   'identified, bind the arguments of every call of a Python function or method, whatever its parameters and however they are given, to the same '
   'parameters Python does, defaults included, and raise TypeError exactly for the calls that Python rejects; the normalized arguments make the same call.',
  over=['inputs', 'programs'],
  quant='every signature and every call within the bounds',
  why='Tests use a dozen signatures and calls of the endless combinations of defaults, keyword-only parameters and keywords.',
  files=['lib/fbuild/functools.py'],
  mechanism=[('binding', 'lib/fbuild/functools.py normalize_args, bind_args')],
  technique=SYMEX, note=NOTE),
 dict(id='C15', title='Shell patterns match what they describe',
  statement='fbuild.fnmatch.fnmatch and filter report exactly the names that the whole pattern matches: * any text, ? any character, [seq] and [!seq] '
   'a character (not) in seq, {pat1,pat2} either of the subpatterns, which nest, and everything else, including brackets and braces that '
   'are not closed, itself. What was matched before makes no difference.',
  over=['inputs'],
  quant='every name and pattern within the bounds',
  why='Tests match a few dozen names; errors need particular combinations of characters.',
  files=['lib/fbuild/fnmatch.py'],
  mechanism=[('translation to regular expressions', 'lib/fbuild/fnmatch.py _translate, _translate_subexpression'), ('cache', 'lib/fbuild/fnmatch.py _compile_pattern')],
  technique=SYMEX, note=NOTE + 'Strings have symbolic characters.'),

 dict(id='C16', title='Globbing finds exactly the files the pattern describes',
  statement='fbuild.glob.glob, Path.glob and Path.globall return every path of the file system that the pattern describes exactly once, and nothing else: '
   'components match as in fnmatch, but wildcards match no names that start with a dot, ** stands for any number of directories that are not hidden, '
   'a slash at the end for directories only; what an exclude pattern matches is left out, also from nested lists of patterns. The glob of an '
   'escaped name is this name. Path.find yields everything below a directory whose name matches the pattern.',
  over=['inputs', 'environments'],
  quant='every tree and pattern within the bounds',
  why='Tests use one directory and a few dozen patterns.',
  files=['lib/fbuild/glob.py', 'lib/fbuild/path.py', 'lib/fbuild/fnmatch.py'],
  mechanism=[('expansion by components', 'lib/fbuild/glob.py _iglob, glob1, glob2, _rlistdir'), ('exclusion', 'lib/fbuild/path.py Path.iglob, igloball')],
  technique=SYMEX, note=NOTE + 'Strings have symbolic characters.'),
 dict(id='C17', title='Path operations take paths apart and put them together consistently',
  statement='The operations of fbuild.path.Path on the text of paths do what they document for every path, as methods and as static methods: '
   'split, basename, dirname, splitext, splitall and the properties return the parts of which the path consists, whose '
   'join is the path again; addprefix, replaceext, replaceexts, addroot and removeroot change the part they name and nothing else; '
   'normpath and relpath lead to the same place; and paths they return are Paths.',
  over=['inputs'],
  quant='every path within the bounds',
  why='Errors need unusual paths: leading dots, several dots, slashes at the end, empty parts.',
  files=['lib/fbuild/path.py'],
  mechanism=[('operations', 'lib/fbuild/path.py Path')],
  technique=SYMEX, note=NOTE + 'Strings have symbolic characters.'),
 dict(id='C18', title='Platform options change the arguments of matching platforms only',
  statement='A function decorated with fbuild.builders.platform.auto_platform_options is called with the keyword arguments that result from '
   'applying, in order, all entries of platform_options whose platforms match (those named present, those with ! absent): key sets, key+ appends to and key- removes '
   'from what was given or set before. Neither the values the caller passed nor the entries are changed, so that the next call gives the same.',
  over=['inputs'],
  quant='every set of entries, platform and values within the bounds',
  why='Tests use single entries; mistakes need several entries for the same argument, particular types or a second call.',
  files=['lib/fbuild/builders/platform.py'],
  mechanism=[('options', 'lib/fbuild/builders/platform.py parse_platform_options, auto_platform_options')],
  technique=SYMEX, note=NOTE),

 dict(id='C19', title='Everything that is logged appears, line by line',
  statement='Whatever threads log with fbuild.console.Log within log_from_thread appears in the log file completely, once and in the order of each thread, '
   'whatever the verbosity, and on the console if its verbosity is at most that of the log; the pieces of '
   'a line of one thread are not separated by what other threads log.',
  over=['schedules', 'inputs'],
  quant='every interleaving within the preemption bound and all verbosities',
  why='No tests.',
  files=['lib/fbuild/console.py'],
  mechanism=[('buffers of threads', 'lib/fbuild/console.py Log.log_from_thread, write, flush')],
  technique=SYMEX, note=NOTE + 'Thread interleavings are symbolic choices of a virtual thread runtime.'),

 dict(id='C20', title='Commands run as asked and their failures are noticed',
  statement='Context.execute runs a command once, with the arguments, input and environment (that of the build, overlaid with env, runtime_libpaths appended) given, '
   'and returns what it printed if it exits with 0 or ignore_error is set; otherwise it raises ExecutionError, if it could not be started OSError, after the timeout '
   'ExecutionTimedOut, with its command, output and status, and KeyboardInterrupt if it or the build is interrupted. Then no process is left; it is '
   'killed, with its children, only if it took too long or the build was interrupted. While one task waits for a command other tasks run, and when it is over again only one.',
  over=['schedules', 'inputs', 'faults'],
  quant='every exit status, timeout, interruption, combination of arguments and interleaving within the bounds',
  why='Tests run compilers that succeed; timeouts and interruptions are not tested, nor are commands of several tasks.',
  files=['lib/fbuild/context.py', 'lib/fbuild/subprocess/killableprocess.py', 'lib/fbuild/sched.py'],
  mechanism=[('execution', 'lib/fbuild/context.py Context.execute'), ('processes', 'lib/fbuild/subprocess/killableprocess.py Popen'),
             ('waiting', 'lib/fbuild/sched.py Scheduler.interruptible')],
  technique=SYMEX, note=NOTE + 'Processes are a model of the operating system.'),

 dict(id='C21', title='A run of the program does what its command line asks for',
  statement='fbuild.main.main calls the targets of the command line in order (build if there is none; install only as the last, after build if no other target than configure was given, '
   'with pre_install before and post_install after the files are installed), each with the context, until one fails or is unknown. Errors are logged and exit with 1, other '
   'exceptions and interrupts are passed on. However a build ends, even by SIGINT while saving, the state is saved once, unless --do-not-save-database is given, and no thread is left. '
   '--rebuild (and --configure) starts without the old state, --delete-function, --delete-file and --dump-state build nothing (and the first two fail if there is nothing to delete),  --clean removes the build directory only. Temporary files of earlier builds are gone when a target runs, and those of '
   'a build that succeeded at its end. The state and the log are written where the command line says, as many threads are used as it says, and the options that the fbuildroot adds reach its targets.',
  over=['inputs', 'histories', 'faults'],
  quant='every history of runs, command line, fbuildroot and failure within the bounds',
  why='No test runs the program; failures and interrupts in particular situations are not tested at all.',
  files=['lib/fbuild/main.py', 'lib/fbuild/context.py', 'lib/fbuild/target.py', 'lib/fbuild/options.py', 'lib/fbuild/install.py'],
  mechanism=[('main program', 'lib/fbuild/main.py main, build'), ('state and temporary files', 'lib/fbuild/context.py Context.create_buildroot, load_configuration, save_configuration'),
             ('targets', 'lib/fbuild/target.py find')],
  technique=SYMEX, note=NOTE),

 dict(id='C22', title='Installation puts every file where and as it was asked for',
  statement='Context.install and the following installation put every file, or link, below install_destdir: in install_prefix and the subdirectory, or in the subdirectory alone if '
   'it is absolute, under its name or the new one. Whatever is there before, a file then is a file with the content of its source and its permissions or those given, and a link the same link. '
   'Sources, files to which links refer, and everything else stay as they are.',
  over=['inputs', 'environments'],
  quant='every text of the directories, kind of source and previous target within the bounds',
  why='No test installs anything that exists already, or uses permissions.',
  files=['lib/fbuild/install.py', 'lib/fbuild/context.py', 'lib/fbuild/path.py'],
  mechanism=[('where', 'lib/fbuild/context.py Context.install'), ('how', 'lib/fbuild/install.py LocalCommander.install, Installer')],
  technique=SYMEX, note=NOTE + 'Strings have symbolic characters.'),
 dict(id='C23', title='What the C builder builds is what the sources say',
  statement='After build_lib and build_exe of the gcc builders (static and shared) return, in whatever state an earlier build left the build directory and whatever has changed since (sources, '
   'directly or indirectly included headers, which headers are included, macros, which sources are in the library, outputs lost), the library and the executable hold exactly the given sources, '
   'each compiled from what it and its headers contain now, with the options given now. They fail if a source does not compile, and succeed once it does. A source is only compiled again if it, a header it includes, '
   'the options or its object changed, and nothing is linked if nothing of what is linked changed. This holds for file names with characters that are special in makefiles as well. '
   'A library is linked with the libraries it uses, directly or indirectly, each once and before those that it uses; the executable is linked again if any of them changed, and run() finds the shared ones.',
  over=['inputs', 'histories'],
  quant='every history of builds with contents of sources and headers, includes, options and lost files within the bounds',
  why='The examples build one project twice, without changes.',
  files=['lib/fbuild/builders/__init__.py', 'lib/fbuild/builders/c/__init__.py', 'lib/fbuild/builders/c/gcc/__init__.py', 'lib/fbuild/db/__init__.py'],
  mechanism=[('dependencies', 'lib/fbuild/builders/c/gcc/__init__.py Builder.compile'), ('libraries', 'lib/fbuild/builders/c/gcc/__init__.py Ar.__call__'),
             ('objects', 'lib/fbuild/builders/__init__.py AbstractCompiler.build_objects'), ('linking', 'lib/fbuild/builders/c/__init__.py Builder.link_lib, link_exe')],
  technique=SYMEX, note=NOTE + 'gcc, ar and ranlib are a model: what they read and write.'),
 dict(id='C24', title='What the OCaml builder builds is what the sources say',
  statement='After build_lib and build_exe of the OCaml builders (ocamlc and ocamlopt) return, in whatever state an earlier build left the build directory and whatever has changed since (sources, interfaces, '
   'which modules they use, options, outputs lost), the program holds every given module exactly once, after the modules it uses, each compiled from what its source and the interfaces of the modules it uses '
   'contain now (in native code also from their implementations), with the options given now, in whatever order independent compilations run. A source is only compiled again if something it was compiled from, the options or its '
   'outputs changed, and nothing is linked if nothing was compiled. This holds in directories with spaces in their names as well.',
  over=['inputs', 'histories', 'schedules'],
  quant='every history of builds with contents, uses of modules, options and lost files, and every order of independent compilations within the bounds',
  why='The examples build projects without changes, and OCaml projects only where it is installed.',
  files=['lib/fbuild/builders/ocaml/__init__.py', 'lib/fbuild/db/__init__.py', 'lib/fbuild/sched.py'],
  mechanism=[('dependencies', 'lib/fbuild/builders/ocaml/__init__.py Ocamldep.modules, Ocamldep.source_dependencies'), ('compilation', 'lib/fbuild/builders/ocaml/__init__.py Builder.compile, _add_compile_dependencies, scan'),
             ('objects', 'lib/fbuild/builders/ocaml/__init__.py Builder.build_objects'), ('linking', 'lib/fbuild/builders/ocaml/__init__.py Builder._build_link, _add_link_dependencies')],
  technique=SYMEX, note=NOTE + 'ocamldep, ocamlc and ocamlopt are a model: what they read and write.'),
 dict(id='C25', title='Files made from templates, and copies',
  statement='substitute, regex_substitute, format_substitute, autoconf_config_file and autoconf_config_header write a file in the build root (or the buildroot given) that says exactly what the template says with every placeholder replaced: '
   'pattern by pattern, every occurrence (regular expressions match in every line unless other flags are given), {name} as in str.format, @name@ with sequences joined by spaces, and lines "#undef NAME" by '
   '"#define NAME value", or by "/* #undef NAME */" if the value is false or empty. Values are put in as they are. A placeholder without a value fails and leaves the file as it was. copy, move and copy_regex give '
   'copies with the content and permissions of their sources, under the name asked for (into a directory if it is one or ends with a slash); copy_regex copies exactly the files below srcdir '
   'that match src_pattern and not exclude_pattern, and makes the directories that match. After every later build the files are what they would be if they were made now, '
   'and they are made again only if the template, the source, the values or the file itself changed or is missing.',
  over=['inputs', 'histories'],
  quant='every template, value, tree of files and history within the bounds',
  why='One example substitutes in three templates; nothing tests copies.',
  files=['lib/fbuild/builders/text.py', 'lib/fbuild/builders/file.py', 'lib/fbuild/path.py', 'lib/fbuild/db/__init__.py'],
  mechanism=[('templates', 'lib/fbuild/builders/text.py substitute, regex_substitute, format_substitute, autoconf_config_file, autoconf_config_header'),
             ('copies', 'lib/fbuild/builders/file.py copy, move, copy_regex, _copy_or_move')],
  technique=SYMEX, note=NOTE + 'Templates have symbolic characters.'),
 dict(id='C26', title='Programs, versions and packages are what the tools say',
  statement='find_program returns the first of the given names that is a file, as it stands or else in the first directory that has it (of those that are given, or those in PATH), and raises MissingProgram, with the names, if none is there. '
   'The version of gcc and clang is the number that the compiler prints, whatever its package or vendor is called. check_version accepts a compiler exactly if its version is the one required, and at least and at most the bounds given '
   '(the parts are compared as numbers, one by one; of two versions that begin alike the longer is greater), and raises ConfigFailed otherwise. PkgConfig asks for the given package and returns exactly the flags that pkg-config prints; LlvmConfig and SDLConfig ask for what their functions are named after, with the components that are given, and return what the tools print without the spaces around it.',
  over=['inputs'],
  quant='every set of programs, every version and every output of the tools within the bounds',
  why='The tests look for one program; versions and packages are not tested.',
  files=['lib/fbuild/builders/__init__.py', 'lib/fbuild/builders/c/gcc/__init__.py', 'lib/fbuild/builders/c/clang/__init__.py', 'lib/fbuild/builders/pkg_config.py', 'lib/fbuild/builders/llvm.py', 'lib/fbuild/builders/sdl.py'],
  mechanism=[('programs', 'lib/fbuild/builders/__init__.py find_program'), ('versions', 'lib/fbuild/builders/__init__.py check_version; lib/fbuild/builders/c/gcc/__init__.py Gcc.version'),
             ('packages', 'lib/fbuild/builders/pkg_config.py PkgConfig; lib/fbuild/builders/llvm.py LlvmConfig; lib/fbuild/builders/sdl.py SDLConfig')],
  technique=SYMEX, note=NOTE + 'The outputs of tools have symbolic characters.'),
 dict(id='C27', title='guess finds the builders for the platform',
  statement='guess (and guess.static and guess.shared) returns the builders of the first entry of its table whose platform is a part of the given one (the one of this machine if none is given) and of the compilers '
   '(of the compiler given with exe, if it is), and which can be configured; entries before it are tried in order, each builder at most once, those after it and those of other platforms not at all. If none works, or the given compiler is of no known kind, it raises ConfigFailed. '
   'Builders get the context, the executable, the platform with the compiler added, and the options given, with the ones for static and shared builders and the platform options that match; nothing that was given is changed. '
   'In the tables for C and C++ every builder exists, is of the platform, and the one for the platform comes before the general one; static builders make static libraries and shared ones shared libraries, '
   'with the tools of their compiler only, and all of them can be made if the compiler works and has the required version.',
  over=['inputs'],
  quant='every table, platform, compiler and outcome of the builders within the bounds',
  why='The tests run guess with the compiler that is installed.',
  files=['lib/fbuild/builders/c/__init__.py', 'lib/fbuild/builders/cxx/__init__.py', 'lib/fbuild/builders/platform.py', 'lib/fbuild/builders/c/gcc/avr.py', 'lib/fbuild/builders/cxx/gxx/avr.py'],
  mechanism=[('guessing', 'lib/fbuild/builders/c/__init__.py Guesser'), ('tables', 'lib/fbuild/builders/c/__init__.py, lib/fbuild/builders/cxx/__init__.py guess'),
             ('builders', 'lib/fbuild/builders/c/gcc, clang, intel; lib/fbuild/builders/cxx/gxx, clangxx, intelxx: static, shared')],
  technique=SYMEX, note=NOTE + 'Compilers are a model: what they print, read and write.'),
 dict(id='C28', title='Configuration tests tell what the compiler can do',
  statement='A field of a configuration test class (header_test, function_test, macro_test, type_test, int_type_test, struct_test, variable_test) is not None exactly if the header of the class (if any) is there and the program for it (the given one, or one that uses what is tested) '
   'compiles, links with the flags, library paths and libraries that are given, runs within its time limit, and prints what is expected; it then holds the header, the signature, the members, or the alignment, size and sign that the compiler tells. A test is not made again in this or a later build, '
   'unless its definition, the header of its class or the options have changed; then it tells what it would tell if it was made for the first time. functions(), macros(), types() and so on list the fields of a class with their results. try_compile, try_link_lib, try_link_exe and try_run (and check_...) '
   'are true if all commands succeed, false if one fails or times out, and pass other errors on; check_header_exists, check_functions_exist, check_macros_exist and check_types_exist tell what there is.',
  over=['inputs', 'histories'],
  quant='every set of headers, declarations and symbols, every outcome of commands and every history of definitions within the bounds',
  why='The examples run the tests with the compiler that is installed, once.',
  files=['lib/fbuild/config/__init__.py', 'lib/fbuild/config/c/__init__.py', 'lib/fbuild/builders/__init__.py', 'lib/fbuild/builders/c/__init__.py', 'lib/fbuild/db/database.py'],
  mechanism=[('tests', 'lib/fbuild/config/c/__init__.py AbstractFieldDescriptor.__call__, format_test, process_stdout'), ('classes', 'lib/fbuild/config/__init__.py TestMeta; lib/fbuild/config/c/__init__.py Test'),
             ('caching', 'lib/fbuild/db/database.py Database._digest_function; lib/fbuild/config/c/__init__.py __fbuild_source__'), ('trying', 'lib/fbuild/builders/__init__.py try_compile, try_link_lib, try_link_exe, try_run, check_...; lib/fbuild/builders/c/__init__.py check_statement, check_..._exist')],
  technique=SYMEX, note=NOTE + 'The compiler is a model that reads test programs.'),
 dict(id='C29', title='Options reach the tools they are for',
  statement='Everything that is built with the gcc and clang builders for C and C++ is made with exactly the options that are given now: include directories, macros, warnings, compile flags and platform options reach every compilation; link flags, library paths, libraries, external libraries and ldlibs reach the links, libraries after the objects; '
   'flags, machine flags, and debug, optimize and profile reach both. Options of a call reach only what the call makes, those of the builder everything it makes; both add up, each value at least once and flags in the order given, and for the switches what is given to the call counts. No other options reach the tools. The external libraries and library paths that a library was made with reach whatever is linked with it, also if only another library uses it. '
   'Sources are compiled with -c, in their order, to the named outputs; flags of a builder are tried when it is made; the archiver is the one that is given. If options change between builds everything they matter for is made again, and if nothing changes nothing is done.',
  over=['inputs', 'histories'],
  quant='every option of the list, given to the builder, the call, both or none, with any values, and every change of it between builds, within the bounds',
  why='The tests compile one program without options.',
  files=['lib/fbuild/builders/c/gcc/__init__.py', 'lib/fbuild/builders/c/__init__.py', 'lib/fbuild/builders/c/clang/__init__.py', 'lib/fbuild/builders/cxx/gxx/__init__.py', 'lib/fbuild/builders/cxx/clangxx/__init__.py', 'lib/fbuild/builders/platform.py'],
  mechanism=[('commands', 'lib/fbuild/builders/c/gcc/__init__.py Gcc.__call__, Compiler.__call__, Linker.__call__, Ar.__call__'), ('builders', 'lib/fbuild/builders/c/gcc/__init__.py static, shared; lib/fbuild/builders/c/__init__.py Builder._build_link')],
  technique=SYMEX, note=NOTE + 'The tools are a model that records what it is given.'),
 dict(id='C30', title='Java libraries, Haskell programs, parsers and Felix programs are what the sources say',
  statement='After a build that succeeds a jar has exactly the classes that its sources define now, compiled from the sources, with the manifest, the options (flags, target, debug and optimization, of the builder and of the call) and the libraries and class paths (of the builder and of the call) there are now, so that classes are compiled again if a jar they were compiled with has changed; '
   'a Haskell program is made of exactly its sources now, in their order; bison parsers (and their headers if they are asked for), Felix programs, and llvm-as and llc outputs are made from their sources and options (of the builder and of the call) now. A build fails exactly if a source is wrong, and the next one repairs it. '
   'Outputs that are lost are made again, in the build directory; if nothing has changed nothing is done, and otherwise only what has changed is compiled. try_compile of Java tells whether the source compiles; classes are run with all their libraries, what the compiler tells is shown unless that is to be quiet, and compilers that do not work, or that do not know their flags, are refused. The same is true of Scala, whose scripts are compiled and run in the build directory. Nm lists every object once, those that need a symbol before those that define it (unless they need each other), however often it is asked.',
  over=['inputs', 'histories'],
  quant='every history of sources, classes, uses, options and lost outputs, and every graph of needed symbols, within the bounds',
  why='The examples build one Java and one Haskell program once; bison, nm, Scala, Felix and LLVM are not tested.',
  files=['lib/fbuild/builders/java.py', 'lib/fbuild/builders/scala.py', 'lib/fbuild/builders/ghc.py', 'lib/fbuild/builders/bison.py', 'lib/fbuild/builders/nm.py', 'lib/fbuild/builders/felix.py', 'lib/fbuild/builders/llvm.py'],
  mechanism=[('java', 'lib/fbuild/builders/java.py AbstractCompiler._run, AbstractBuilder, Jar, Java'), ('scala', 'lib/fbuild/builders/scala.py AbstractCompiler, Scala, Scalac, Builder'), ('haskell', 'lib/fbuild/builders/ghc.py Ghc, Builder'), ('parsers', 'lib/fbuild/builders/bison.py Bison'),
             ('objects', 'lib/fbuild/builders/nm.py Nm'), ('felix', 'lib/fbuild/builders/felix.py Flx, Felix'), ('llvm', 'lib/fbuild/builders/llvm.py Llc, Llvm_as')],
  technique=SYMEX, note=NOTE + 'The tools are models of what they read, write and print.'),
 dict(id='C31', title='OCaml builders do what they are asked for: options, packs, both kinds of code, generated sources',
  statement='What is given to an OCaml builder (Ocamlc, Ocamlcp, Ocamlopt, Ocaml, with ocamlfind or batteries or without) or to a call, as lists or tuples, reaches the tools it is for, and no others, in every build: include directories, flags, the C compiler, packages, syntaxes and preprocessors whatever is compiled, with syntaxes, preprocessors and packages also ocamldep; '
   'cflags and ckwargs compilations, lflags and lkwargs links, C libraries links, libraries and -linkpkg only programs. debug, optimize, the C compiler, profile_flags and linkpkg of a call replace those of the builder. Interfaces are compiled with the include directories of the builder as well, and libraries come before the objects that use them. try_compile, try_link_lib, try_link_exe and try_run say whether it works. '
   'A pack holds the given objects and sources, compiled for it; a program that uses it holds every module once, compiled from what the sources and the interfaces (native: implementations) it uses contain now, in the build root given, whatever has changed or was lost. Ocaml makes the bytecode and the native code of the same sources. '
   'ocamllex and ocamlyacc write sources that say what theirs say, with the flags given, in the build root. If nothing has changed nothing is done, and only what changed is compiled again.',
  over=['inputs', 'histories'],
  quant='every option and level, and every history of options, sources, lost outputs and flags within the bounds',
  why='The examples give no options but one package, and build once.',
  files=['lib/fbuild/builders/ocaml/__init__.py', 'lib/fbuild/builders/ocaml/ocamlfind.py', 'lib/fbuild/builders/ocaml/batteries.py', 'lib/fbuild/builders/__init__.py'],
  mechanism=[('options', 'lib/fbuild/builders/ocaml/__init__.py Builder._run, _build_link, Ocamlcp._run, Ocamlopt._run'), ('packages', 'lib/fbuild/builders/ocaml/ocamlfind.py Ocamldep.modules, OcamlfindBuilderMixin'), ('packs', 'lib/fbuild/builders/ocaml/__init__.py Builder.build_pack'),
             ('both', 'lib/fbuild/builders/ocaml/__init__.py Ocaml'), ('generated', 'lib/fbuild/builders/ocaml/__init__.py Ocamllex, Ocamlyacc'), ('trials', 'lib/fbuild/builders/__init__.py AbstractExeLinker')],
  technique=SYMEX, note=NOTE + 'The tools are models of what they read, write and were given.'),
 dict(id='C32', title='Explanations of why functions run are the reasons',
  statement='With --explain-database each cached function that runs is explained, and what is told is why it runs: it is told to be dirty exactly if it is new, or it or a function that it uses has changed; that it is called with new arguments exactly if its result for these arguments is not known; a source file (declared or registered later) is named exactly if its contents have changed since (contents that were other ones in between and changed back may count); and a lost output is named if nothing else has changed. '
   'Nothing is told of calls that are not run, and nothing at all without the option; results, and what runs, are the same with and without it. This is true of every database engine.',
  over=['inputs', 'histories'],
  quant='every history of changes of functions, arguments, files and lost outputs within the bounds',
  why='The tests never ask for explanations.',
  files=['lib/fbuild/db/database.py', 'lib/fbuild/db/backend.py', 'lib/fbuild/db/pickle_backend.py', 'lib/fbuild/db/sqlite_backend.py'],
  mechanism=[('explanations', 'lib/fbuild/db/database.py Database.call'), ('reasons', 'lib/fbuild/db/backend.py Backend.prepare, check_call_files, check_external_files')],
  technique=SYMEX, note=NOTE),
]
