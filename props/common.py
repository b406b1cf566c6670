DB_ASSUME = [
    'one build uses the state file at a time, cached calls are made one at a time within it, and '
    'between processes the state is either saved (clean end) or not (killed)',
    'the database thread is replaced by a direct call during symbolic runs (its protocol is C13); '
    'replays and validation runs use the real thread',
    'md5 and the other digests are injective; files are read and written through the real file system',
    'a changed file has another modification time than at the earlier calls, or is at most one second '
    'old when it is looked at (documented limit of mtime tracking)',
    'z3, the CPython 3.12 executing the sources symbolically and the proxies in symx/ are trusted; '
    'sampled solver models of completed paths are re-run under the deployment PyPy and must agree',
]
ENGINES = ['pickle', 'sqlite', 'cache']
