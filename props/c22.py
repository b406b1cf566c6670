def jobs(tier):
    q = tier == 'quick'
    J = [('installs:where', dict()),
         ('installs:where', dict(maxlen=1, prefix=1, rename=True)),
         ('installs:files', dict(items=1)),
         ('installs:files', dict(items=2, perms=(None, 0o600), modes=(0o640,)))]
    if not q:
        J += [('installs:where', dict(maxlen=4, prefix=2)),
              ('installs:where', dict(maxlen=2, prefix=4, rename=True)),
              ('installs:files', dict(items=2)),
              ('installs:files', dict(items=3, perms=(None, 0o600), modes=(0o640,), sources=('file', 'link'), targets=('absent', 'file', 'link to the source')))]
    return J


SPEC = dict(
    jobs=jobs,
    require=['placed', 'file', 'link', 'a file is installed once', 'installation happens later', 'permissions are remembered',
             'the source is the file, wherever one is later', 'the target is in the destdir', 'every file is installed', 'files are installed as files',
             'installed files have the content of the source', 'installed files have the permissions asked for', 'links are installed as links',
             'nothing else is changed', 'sources stay as they are'],
    bounds='directories of up to 2 (thorough: 4) characters of slashes, dots and letters; up to 2 (thorough: 3) files or links, onto nothing, a file or any link; a few permissions',
    outside='installing as another user through pkexec; directories with ..; sources or targets that are directories',
    assumptions=[],
)
