"""What digests of functions say about their source."""
import types

from . import text as T

# newlines, blanks, comments, single quotes, letters
RANGES = ((10, 10), (32, 33), (35, 35), (39, 41), (97, 98))


class Md5:
    """An injective hash."""

    def __init__(self, data=b''):
        self.data = data

    def update(self, data):
        self.data += data

    def hexdigest(self):
        return self.data.decode()


def digests(ctx, a=3, b=3):
    """Two texts of a function have the same digest only if they are the same."""
    subst = {}
    if ctx.symbolic:
        from symx import symstr
        symstr.ENCODABLE[0] += 1

        def undo():
            symstr.ENCODABLE[0] -= 1
        ctx.cleanups.append(undo)
        subst['hashlib'] = types.SimpleNamespace(md5=Md5)
    fbuild, dbm = T.load(ctx, 'fbuild', 'fbuild.db.database', only=('fbuild.db.database',), **subst)
    texts = [ctx.text('one', a, a, RANGES), ctx.text('other', b, b, RANGES)]
    insp = dbm.fbuild.inspect
    old = insp.getsource

    def one(ctx):
        pass

    def other(ctx):
        pass
    # (inside of a string every character matters)
    sources = {f.__name__: 'def f(ctx):\n    return """' + t + '."""\n' for f, t in zip((one, other), texts)}
    insp.getsource = lambda f: sources[f.__name__]
    ctx.cleanups.append(lambda: setattr(insp, 'getsource', old))
    D = dbm.Database
    out = []
    for f in (one, other):
        D.add_function_to_map(f)
        out.append(D.get_function_digest_from_map('%s.%s' % (f.__module__, f.__name__)))
    equal = T.is_(ctx, out[0], out[1])
    if equal:
        ctx.check(T.same(ctx, texts[0], texts[1]), 'sources that differ have different digests', texts)
        ctx.reach('the same source')
    ctx.check(ctx.any([equal, ctx.neg(T.same(ctx, texts[0], texts[1]))]), 'the same source has the same digest', texts)
    ctx.observe(bool(equal))
    ctx.sample(n=a)
