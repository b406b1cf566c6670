"""How each property is decided, for DESIGN.md: (how, oracle, why beyond tests)."""
HOW = {
    'C01': (
        'Histories of calls of cached functions on real state files. Between calls contents, modification times, clock, argument, function source, presence of files and restarts are symbolic.',
        'what the function would compute now: z3 decides whether the returned value equals f(arguments, source, contents now), and the destinations are looked up',
        'the tests call one function with one file. The bugs (ABA, digests of one call updated by another, missing files, modification times going backwards) need particular histories'),
    'C02': (
        'The histories of C01 and C03 with the opposite assertion: if nothing relevant differs on the path, which z3 decides, the function did not run.',
        'whether the function of the harness ran, against the equality of everything it depends on',
        'as C01'),
    'C03': (
        'Symbolic acyclic call graphs between cached functions with symbolic source texts in every process.',
        'a call runs iff the text of a function it used, directly or not, in its last run changed',
        'it takes a call graph, two processes and an edit at the right place'),
    'C04': (
        'Every run of a function may raise (symbolic), and callers may handle it.',
        'the call is made again, and other calls return what they would without the failure',
        'failures in cached functions are not tested at all'),
    'C05': (
        'Files made of blocks with a symbolic position of the change, and symbolic times.',
        'changed iff the bytes differ',
        'it takes large files and particular times'),
    'C06': (
        'A crash before every operation on the state file (symbolic index, torn writes), or in any cached call.',
        'results are right, and those saved earlier and not affected are not computed again',
        'crash points cannot be enumerated by examples'),
    'C07': (
        'State files restamped to other versions, crashes while replacing them, classes that vanished.',
        'no call is answered from it, and the next state is used',
        'not tested'),
    'C08': (
        'What is deleted, and which calls were made before, is symbolic.',
        'exactly the affected calls run again',
        'not tested'),
    'C09': (
        'Cached calls of concurrent tasks on virtual threads with symbolic schedule and call graph, then another process with symbolic edits.',
        'the results of serial calls, and C03 in the second process',
        'schedules'),
    'C10': (
        'fbuild.sched on virtual threads with a symbolic schedule.',
        'every input once, one task at a time, results in order, no deadlock and no endless loop',
        'schedules'),
    'C11': (
        'As C10, with a symbolic dependency graph.',
        'what finished before what, and that the order is a function of the graph',
        'graphs times schedules'),
    'C12': (
        'As C10 and C11, with symbolic failures and loops.',
        'an exception of a failed task reaches the caller, nothing runs afterwards, and the scheduler remains usable',
        'schedules times failures'),
    'C13': (
        'fbuild.rpc on virtual threads, preempted at any statement.',
        'each call is handled once and answered with its own result; shutdowns end',
        'schedules'),
    'C14': (
        'bind_args and normalize_args on functions with a symbolic signature and symbolic calls.',
        'Python itself: what the function gets if it is called',
        'signatures times calls'),
    'C15': (
        'fnmatch on symbolic characters of pattern and name; the regular expression it makes is matched symbolically.',
        'an independent recursive matcher in the harness',
        'all characters'),
    'C16': (
        'Trees whose names are symbolic characters behind modelled listdir and stat, and symbolic patterns.',
        'an independent matcher applied to every entry of the tree',
        'all names and trees'),
    'C17': (
        'The operations on symbolic strings.',
        'algebraic laws (the parts join to the whole, relpath leads to the same place) and reference definitions',
        'all strings'),
    'C18': (
        'Entries with symbolic platforms and values.',
        'a reference fold over the entries',
        'combinations of entries'),
    'C19': (
        'fbuild.console.Log on virtual threads.',
        'the lines every thread logs',
        'schedules'),
    'C20': (
        'Context.execute and killableprocess on virtual threads with modelled processes.',
        'exit status, output, signals and life of the modelled processes',
        'the timing of exits, timeouts and interrupts'),
    'C21': (
        'fbuild.main.main in one process with a real fbuildroot.py in a scratch directory; command line and failures are symbolic.',
        'a reference of which targets are called and what is left',
        'combinations and failures'),
    'C22': (
        'Installation with symbolic texts of directories, and real files.',
        'the expected file tree',
        'combinations'),
    'C23': (
        'The real gcc builders, database, glob and temporary files with modelled tools; histories of builds with symbolic contents and include relations.',
        'the current sources with their headers; z3 decides whether contents are equal and a recompilation was allowed',
        'histories of incremental builds are not tested'),
    'C24': (
        'The real OCaml builders and database with modelled tools; histories of builds with symbolic contents, uses of modules and orders of compilation.',
        'the current sources with the interfaces they use; z3 decides whether contents are equal and a recompilation was allowed',
        'histories of incremental builds are not tested'),
    'C25': (
        'The real functions of fbuild.builders.text and fbuild.builders.file on templates with symbolic characters, and with the database over builds with symbolic contents.',
        'replacements written from the documentation, character by character; the names that a rule gives',
        'the characters of templates; histories'),
    'C26': (
        'The real functions with symbolic files in directories, symbolic versions and outputs of tools with symbolic characters.',
        'the first name in the first directory; comparison of the parts of versions as numbers; the flags and numbers that were put into the output',
        'which programs are there, and what tools print elsewhere, cannot be changed in a test'),
    'C27': (
        'The real Guesser on symbolic tables, platforms and outcomes; the real tables with symbolic outcomes; every builder is made with modelled compilers.',
        'a reference of which entries are to be tried with what, and which wins; what the modelled tools were asked to make',
        'the other compilers and platforms are not there'),
    'C28': (
        'The real test classes, gcc builder and database with a modelled compiler that understands test programs; what is installed is symbolic and decided when it is asked for; definitions change between builds.',
        'what there is, looked up for what the test is about; the outcomes of the commands',
        'what is installed cannot be changed in a test; definitions that change between builds are not tested'),
    'C29': (
        'The real builders and database with tools that record the commands everything was made with, over two or three builds with symbolic choices of options; the real command line with values that are symbolic strings.',
        'the options that were given, and whom they are for',
        'options given in two places, equal or different, and options that change between builds are not tested'),
    'C30': (
        'The real builders and database with modelled tools (javac inlines constants and only uses its last class path; bison writes a header next to its output), over two or three builds with symbolic sources, classes, options and lost outputs.',
        'what was built, against what the sources of this build say',
        'histories are not tested, and most of these tools are not there'),
    'C31': (
        'The real builders and database with modelled OCaml tools that record the commands everything was made with, over two builds in which options come and go; the histories of C24 with packs, with bytecode and native code at once, and with objects that are compiled and linked one by one; ocamllex and ocamlyacc with symbolic sources, flags and lost outputs.',
        'a table of which option reaches which tool; what was built, against what the sources say',
        'the tables have hundreds of entries per builder, and what is kept from an earlier build matters'),
    'C32': (
        'The real database with explain=True and a log that is recorded, over two or three builds with symbolic functions, contents, arguments and lost outputs.',
        'the reasons that a reference of what is known gives',
        'the option is never used by the tests, and the reasons depend on the history'),
}
