def jobs(tier):
    q = tier == 'quick'
    ab, nl = ((97, 98),), ((10, 10), (97, 99))
    at = ((45, 45), (64, 64), (97, 98))
    J = [('texts:generate', dict(kind='substitute', n=3 if q else 5)),
         ('texts:generate', dict(kind='substitute', n=3 if q else 5, what='two', ranges=((97, 99),)))]
    J += [('texts:generate', dict(kind='regex', what=k, n=3 if q else 5, ranges=nl)) for k in ('runs', 'starts', 'start', 'ends', 'groups', 'two')]
    J += [('texts:generate', dict(kind='format', n=4 if q else 6, ranges=((97, 98), (123, 123), (125, 125)), values=('str', 'int', 'mark'), depth='d/')),
          ('texts:generate', dict(kind='file', n=4 if q else 6, ranges=at, values=('str', 'mark', 'back') if q else ('str', 'mark', 'back', 'list'))),
          ('texts:generate', dict(kind='file', n=3 if q else 4, ranges=((64, 64), (97, 98)), what='both',
                                  values=('int', 'list', 'empty', 'none', 'tuple', 'true', 'zero', 'false'), depth='d/e/')),
          ('texts:generate', dict(kind='file', n=3, ranges=((9, 10), (32, 126)), values=('str',))),
          ('texts:generate', dict(kind='file', n=2 if q else 3, ranges=((64, 64), (97, 97)), pieces=('', '@a@', '@ab@'), what='both', values=('str', 'mark', 'mark a'))),
          ('texts:generate', dict(kind='header', n=2 if q else 3, ranges=((10, 10), (64, 64)), pieces=('', '@a@', '@ab@', '#undef a', '#undef ab'), what='both', values=('mark', 'mark a'))),
          ('texts:generate', dict(kind='format', n=2 if q else 3, ranges=((97, 97), (123, 123)), pieces=('', '{a}', '{ab}'), what='both', values=('str', 'brace', 'brace a'))),
          ('texts:generate', dict(kind='header', n=3 if q else 4, pieces=('', '#undef ', '#undef ab'), ranges=((10, 10), (32, 32), (64, 64), (97, 98)), values=('str', 'int'))),
          ('texts:generate', dict(kind='header', n=2, pieces=('', '#undef ab'), ranges=((10, 10), (32, 126)), values=('str',))),
          ('texts:generate', dict(kind='header', n=2, pieces=('#undef a', '@a@', '\n') if q else ('', '#undef a', '#undef ab', '@a@', '\n'), ranges=((32, 32), (64, 64), (97, 97)),
                                  what='both', values=('list', 'mark', 'back', 'empty', 'none', 'tuple', 'true', 'zero', 'false')))]
    J += [('texts:again', dict(kind=k)) for k in ('substitute', 'regex', 'format', 'file', 'header')]
    J += [('texts:copies', dict()), ('texts:copies', dict(move=True, rounds=1))]
    if not q:
        J += [('texts:copies', dict(rounds=3))]
    J += [('texts:trees', dict(rename='all', tree=('a.c', 'd/a.c', 'E/') if q else ('a.c', 'b.h', 'd/a.c', 'd/e/f.c', 'E/')))]
    J += [('texts:trees', dict(rename=x, tree=('a.c', 'd/a.c', 'd/b.h', 'd.c/'), exclude=(None, 'h', 'd', 'a'), dirs=(None, False) if q else (None, True, False),
                               slash=('', '/') if q else ('', '/', '/../src'), inside=True, rounds=1)) for x in ('all', 'c', 'flat', 'part', 'd')]
    J += [('texts:trees', dict(rename=x, tree=('a.c', 'd/a.c', 'd/b.h'), exclude=(None, 'h') if q else (None, 'h', 'd', 'a'), dirs=(None,) if q else (None, False), slash=('/',)))
          for x in ('all', 'c', 'flat', 'part', 'd')]
    return J


SPEC = dict(
    jobs=jobs,
    require=['a placeholder without a value is an error', 'a failure leaves the file as it was', 'missing', 'known placeholders are replaced', 'the file is in the build root',
             'the file says what the template says', 'made', 'templates stay as they are', 'the file is there after every build', 'the file says what the template says now',
             'kept', 'a file is only made again if something has changed', 'the copy is there after every build', 'a copy has the content of its source',
             'a copy has the permissions of its source', 'a file that is moved is gone', 'moved', 'a copied file stays', 'nothing else is made', 'what matches is copied',
             'exactly what matches is copied', 'directories that match are made', 'the copies are returned', 'copied', 'nothing matches'],
    bounds='templates of up to 4 (thorough: 6) characters or pieces such as #undef; the characters vary over those that matter, in some jobs over all of ASCII; six lists of regular expressions and eleven kinds of values; '
           'up to 2 (thorough: 3) builds; trees of up to 4 (thorough: 5) files and directories, five ways of renaming and three of excluding',
    outside='characters that are not in ASCII; carriage returns; format conversions; files that appear in a directory after it was copied; two calls that make one file (contents of destinations are not compared); moving a file again',
    assumptions=['a file that changes has another time (see C05 for when it is looked at)'],
)
