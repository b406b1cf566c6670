def jobs(tier):
    q = tier == 'quick'
    J = [('mains:run', dict(runs=1)),
         ('mains:run', dict(runs=2, maxtargets=1, names=('build', 'check'), defines=None,
                            options=('', '--rebuild', '--do-not-save-database', '--delete-function', '--clean'))),
         ('mains:run', dict(runs=1, maxtargets=3, names=('build', 'install'), options=('',), hooks=True, defines=None)),
         ('mains:run', dict(runs=2, maxtargets=1, names=('build',), saving=True, defines=None, options=('', '--rebuild'), failing=2)),
         ('mains:run', dict(runs=2, maxtargets=1, names=('build',), missing=True, defines=None, options=('', '--clean'), failing=0)),
         ('mains:run', dict(runs=2, maxtargets=1, names=('build',), files=True, defines=None, options=('', '--configure', '--clean'), failing=0)),
         ('mains:run', dict(runs=3, maxtargets=1, names=('build', 'check'), defines=None, options=('', '--delete-file'), failing=0)),
         ('mains:run', dict(runs=1, maxtargets=1, names=('build', 'check'), own=True, jobs=2, defines=None, options=('',)))]
    if not q:
        J += [('mains:run', dict(runs=1, maxtargets=3, jobs=2, options=('',))),
              ('mains:run', dict(runs=1, maxtargets=3, hooks=True, options=('', '--rebuild'), names=('build', 'configure', 'check', 'install'))),
              ('mains:run', dict(runs=3, maxtargets=1, names=('build', 'check'), defines=None, failing=2, outcomes=('ok', 'error', 'interrupt'),
                                 options=('', '--rebuild', '--do-not-save-database', '--delete-function', '--clean'))),
              ('mains:run', dict(runs=2, maxtargets=1, names=('build', 'check'), engine='cache', defines=None, saving=True)),
              ('mains:run', dict(runs=2, maxtargets=2, names=('build', 'check', 'install'), defines=None, options=('', '--rebuild')))]
    return J


SPEC = dict(
    jobs=jobs,
    require=['run', 'returned 0', 'exit 1', 'oops', 'interrupted', 'cleaned', 'rebuilt', 'deleted', 'not saved', 'installed', 'no fbuildroot',
             'cached functions run unless the state knows them', 'clean removes the build directory', 'errors are logged',
             'install installs what was to be installed', 'only install installs', 'no thread is left', 'nothing happens without a fbuildroot',
             'pre_install comes before', 'post_install comes after', 'targets get the context', 'targets have a directory for temporary files',
             'targets run in order, until one fails', 'temporary files are removed if the build succeeded',
             'temporary files of earlier builds are gone', 'the program ends as the build did', 'the state is not saved',
             'the state is saved, however the build ends', 'the log is written', 'own options', 'options of the fbuildroot are passed on', 'as many threads are used as asked for', 'own files', 'the state is where it was asked for',
             'interrupts are noticed after the state was saved'],
    bounds='up to 2 (thorough: 3) runs of the program with up to 3 targets (configure, build, another, install, unknown ones), one option, state and log files, options of the fbuildroot, '
           'hooks and targets that are defined or not, one of which fails with fbuild.Error, another exception or SIGINT; SIGINT while the state is saved',
    outside='other options; deprecated functions of fbuildroot; several SIGINTs; the sqlite engine, which commits on its own',
    assumptions=['SIGINT is delivered in the main thread between two bytecodes of a target or at the begin of saving'],
)
