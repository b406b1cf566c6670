def jobs(tier):
    q = tier == 'quick'
    J = []

    def add(fn='glob', **k):
        J.append(('globfs:' + fn, k))
    add(shape='flat', pattern=(1, 3), namelen=(2, 2), alphabet=['**', '??', '..', '[[', ']]', 'ac'])
    add(shape='tree', pattern=(1, 4))
    add(shape='wide', pattern=(2, 4))
    add(shape='two', pattern=(3, 4))
    add(shape='tree', pattern=(1, 2), prefix='**/')
    add(shape='tree', pattern=(1, 2), suffix='/**')
    add(shape='flat', pattern=(2, 3), prefix='{', alphabet=['{{', '}}', ',,', '**', '..', 'ac'])
    add(shape='flat', pattern=(2, 4), prefix='[', namelen=(2, 2), alphabet=['**', '..', '!!', ']]', 'ac'])
    add(shape='mixed', pattern=(1, 3), exclude=(1, 1), api='path')
    add(shape='mixed', pattern=(1, 2), exclude=(1, 2), api='globall')
    add('escape', namelen=(1, 3), names=['**', '??', '[[', ']]', '!!', '{{', '}}', ',,', 'ac'])
    add('find')
    if not q:
        add(shape='tree', pattern=(5, 6))
        add(shape='two', pattern=(5, 6))
        add(shape='wide', pattern=(5, 6))
        add(shape='deep', pattern=(1, 5), alphabet=['**', '??', '//', '..', '[[', ']]', '!!', 'ac'])
        add(shape='tree', pattern=(3, 4), prefix='**/')
        add(shape='tree', pattern=(3, 4), suffix='/**')
        add(shape='tree', pattern=(1, 2), prefix='?/**/')
        add(shape='flat', pattern=(2, 5), namelen=(2, 2), prefix='{', alphabet=['{{', '}}', ',,', '**', '..', 'ac'])
        add(shape='tree', pattern=(1, 4), exclude=(1, 2), api='path')
        add(shape='two', pattern=(1, 3), exclude=(1, 2), api='globall')
        add('escape', namelen=(1, 4), names=['**', '??', '[[', ']]', '!!', '{{', '}}', ',,', 'ac'])
        add('find', pattern=(1, 3), namelen=(2, 2))
    return J


SPEC = dict(
    jobs=jobs,
    require=['found', 'everything that matches is found once', 'nothing else is found'],
    bounds='trees of up to 3 entries in up to 3 levels, of files, directories and dangling links, whose names are 1 or 2 arbitrary '
           'printable characters; relative patterns of up to 4 (thorough: 6) characters of * ? / . and letters, also with **/ in front or '
           '/** behind, of up to 3 (thorough: 5) with brackets (5 if the first opens),  and of up to 4 (thorough: 6) with braces; exclude patterns of up to 2 characters; '
           'escaped names of up to 3 (thorough: 4) characters',
    outside='bytes, absolute patterns, .. and empty components, more than one ** component, slashes in braces, links to directories, '
            'unreadable directories, trees that change in the meantime',
    assumptions=['os.listdir, os.walk and the tests of os.path are replaced by a model of the tree in the symbolic runs; the concrete '
                 'runs of models of sampled paths use a real directory'],
)
