"""Shell patterns: fbuild.fnmatch compared with a matcher written from its
documentation."""
from . import text as T


class Parser:
    """pattern -> sequence of ('char', c) | ('any',) | ('star',) |
    ('set', negated, [(lo, hi)]) | ('alt', [sequence])"""

    def __init__(self, ctx, pat):
        self.ctx = ctx
        self.pat = pat

    def at(self, i, c):
        return i < len(self.pat) and T.is_(self.ctx, self.pat[i], c)

    def set_end(self, i):
        """Where the bracket expression that starts at i ends, if it does."""
        j = i
        if self.at(j, '!'):
            j += 1
        if self.at(j, ']'):
            j += 1
        while j < len(self.pat):
            if self.at(j, ']'):
                return j
            j += 1
        return None

    def members(self, s):
        out = []
        i = 0
        while i < len(s):
            if i + 2 < len(s) and T.is_(self.ctx, s[i + 1], '-'):
                # descending ranges have no meaning
                self.ctx.assume(T.within(self.ctx, s[i], '\0', s[i + 2]))
                out.append((s[i], s[i + 2]))
                i += 3
            else:
                out.append((s[i], s[i]))
                i += 1
        return out

    def closed(self, i):
        """The alternatives of the brace whose inside starts at i: [(from,
        to)] and where they end; or None if it is never closed."""
        alts, start, depth = [], i, []
        while i < len(self.pat):
            if self.at(i, '['):
                e = self.set_end(i + 1)
                i = e + 1 if e is not None else i + 1
            elif self.at(i, '{'):
                inner = self.closed(i + 1)
                if inner is None:
                    return None
                i = inner[1]
            elif self.at(i, ','):
                alts.append((start, i))
                start = i = i + 1
            elif self.at(i, '}'):
                return alts + [(start, i)], i + 1
            else:
                i += 1
        return None

    def parse(self, i, end):
        out = []
        while i < end:
            if self.at(i, '*'):
                out.append(('star',))
                i += 1
            elif self.at(i, '?'):
                out.append(('any',))
                i += 1
            elif self.at(i, '['):
                e = self.set_end(i + 1)
                if e is None:
                    out.append(('char', self.pat[i]))
                    i += 1
                else:
                    neg = self.at(i + 1, '!')
                    out.append(('set', neg, self.members(self.pat[i + 1 + neg:e])))
                    i = e + 1
            elif self.at(i, '{'):
                c = self.closed(i + 1)
                if c is None:
                    out.append(('char', self.pat[i]))
                    i += 1
                else:
                    out.append(('alt', [self.parse(a, b) for a, b in c[0]]))
                    i = c[1]
            else:
                out.append(('char', self.pat[i]))
                i += 1
        return out


def matches(ctx, items, name):
    """Formula: the whole name matches."""
    def ends(items, front):
        for it in items:
            new = {}

            def add(j, c):
                new.setdefault(j, []).append(c)
            for i, c in front.items():
                if it[0] == 'star':
                    for j in range(i, len(name) + 1):
                        add(j, c)
                elif it[0] == 'alt':
                    for sub in it[1]:
                        for j, d in ends(sub, {i: c}).items():
                            add(j, d)
                elif i < len(name):
                    if it[0] == 'any':
                        add(i + 1, c)
                    elif it[0] == 'char':
                        add(i + 1, ctx.all([c, T.same(ctx, name[i], it[1])]))
                    else:
                        m = ctx.any([T.within(ctx, name[i], lo, hi) for lo, hi in it[2]])
                        add(i + 1, ctx.all([c, ctx.neg(m) if it[1] else m]))
            front = {j: ctx.any(cs) for j, cs in new.items()}
        return front
    return ends(items, {0: True}).get(len(name), False)


def fnmatch(ctx, maxpat=3, maxname=3, minpat=0, names=1, pats=1, prefix='', alphabet=None):
    ns = tuple(ctx.text('name%d' % k, 0, maxname, T.ASCII) for k in range(names))
    f, = T.load(ctx, 'fbuild.fnmatch')
    for k in range(pats):
        ranges = T.ASCII if not alphabet else tuple(sorted((ord(a), ord(b)) for a, b in alphabet))
        pat = prefix + ctx.text('pattern%d' % k, minpat, maxpat, ranges)
        items = Parser(ctx, pat).parse(0, len(pat))
        if names == 1:
            got = [ns[0]] if f.fnmatch(ns[0], pat) else []
        else:
            got = f.filter(list(ns), pat)
        ctx.observe((pat, ns, got))
        rest = list(got)
        for n in ns:
            want = matches(ctx, items, n)
            if rest and rest[0] is n or names > 1 and n in rest[:1]:
                rest.pop(0)
                ctx.reach('matches')
                ctx.check(want, 'a name that does not match is not reported', (pat, n))
            else:
                ctx.reach('does not match')
                ctx.check(ctx.neg(want), 'a name that matches is reported', (pat, n))
        ctx.check(not rest, 'nothing else is reported')
        ctx.sample(pattern_len=len(pat), names=len(ns))
