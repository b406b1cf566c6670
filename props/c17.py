def jobs(tier):
    q = tier == 'quick'
    n = 4 if q else 6
    J = []
    for op in ('parts', 'join', 'ext', 'root', 'all'):
        J.append(('paths:ops', dict(op=op, maxlen=n)))
    J.append(('paths:ops', dict(op='rel', maxlen=3 if q else 5)))
    for op in ('parts', 'ext', 'root', 'all'):
        J.append(('paths:ops', dict(op=op, maxlen=3 if q else 5, static=True)))
    if not q:
        J.append(('paths:ops', dict(op='root', maxlen=5, other=(0, 4))))
        J.append(('paths:ops', dict(op='join', maxlen=4, other=(0, 4))))
    return J


SPEC = dict(
    jobs=jobs,
    require=['done', 'a path is the text it was made of', 'basename is the last component', 'split returns parent and name',
             'splitext separates the extension', 'addprefix changes the name only', 'paths are joined with one slash',
             'replaceext replaces the extension only', 'replaceexts replaces listed extensions only',
             'addroot puts the root in front unless it is there', 'removeroot removes the root if it is there',
             'splitall returns all components', 'the components of a path make the path',
             'normpath removes what is redundant', 'relpath leads from the start to the path', 'relpath is relative'],
    bounds='paths of up to 4 (thorough: 6) characters, of slashes, dots and letters in any combination; roots and other paths of up to 2 (thorough: 4), '
           'extensions of up to 2 characters',
    outside='other separators; longer paths; repeated slashes for splitall; paths with .. or absolute ones for relpath',
    assumptions=['os.path is the source of posixpath of the deployment interpreter, executed symbolically too'],
)
