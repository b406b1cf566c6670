"""The re module for strings with symbolic characters (see symstr.py).

Patterns are parsed by the standard library.  Whether a whole match exists is
decided by one z3 formula (a fork); where the position and groups of a match are needed
a backtracking matcher with the semantics of sre forks on the tests of
characters."""
import re as _re
try:
    from re import _parser as _sp, _constants as _sc
except ImportError:
    import sre_parse as _sp
    import sre_constants as _sc

from . import core, symstr

error = _re.error
for _n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE', 'Match',
           'purge', 'RegexFlag'):
    globals()[_n] = getattr(_re, _n)
_NativePattern = _re.Pattern
SPECIAL = '()[]{}?*+-|^$\\.&~# \t\n\r\v\f'      # what re.escape escapes


def _concretise(c, specials):
    t = symstr.chars()
    c = t.resolve(c)
    if c < '\U000F0000':
        return c
    z3 = t.ctx.z3
    if not t.test(c, ('special', specials), lambda e: z3.Or([e == ord(x) for x in specials])):
        return c
    for x in specials:
        if t.eq(c, x):
            return x
    raise core.PathEnd('infeasible')


class Code(int):
    """The code of a character of a pattern."""

    def __lt__(self, o):
        a, b = chr(self), chr(o)
        if a < '\U000F0000' and b < '\U000F0000':
            return int(self) < int(o)
        return symstr.lt(a, b)

    def __gt__(self, o):
        return Code(o) < self


def _ord(c):
    return Code(ord(c)) if symstr.BASE <= ord(c) <= symstr.TOP else ord(c)


def _parse(pattern, flags):
    _sp.ord = _ord
    try:
        return _sp.parse(pattern, flags)
    finally:
        del _sp.ord


ALNUM = ''.join(map(chr, [*range(48, 58), *range(65, 91), *range(97, 123)])) + '_'


def known(pattern):
    """The pattern with those characters known that may have a special meaning."""
    out = ''
    escaped = False
    for c in pattern:
        if c >= '\U000F0000':
            c = _concretise(c, SPECIAL)
            if c >= '\U000F0000' and (escaped or out.endswith(('{', ',', '(?', '(?P'))):
                c = _concretise(c, ALNUM)
        out += c
        escaped = c == '\\' and not escaped
    return out


def escape(s):
    if not symstr.is_sym(s):
        return _re.escape(s)
    out = ''
    for c in s:
        c = _concretise(c, SPECIAL)
        out += _re.escape(c) if c < '\U000F0000' else c
    return out


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = out = known(pattern)
        tree = _parse(out, flags)
        st = getattr(tree, 'state', None) or tree.pattern
        self.flags = st.flags
        self.groups = st.groups - 1
        self.groupindex = dict(st.groupdict)
        self.tree = list(tree)
        if self.flags & _re.IGNORECASE:
            raise core.Inconclusive('ignoring case of symbolic strings')

    def _native(self, s):
        return None if symstr.is_sym(s) or symstr.is_sym(self.pattern) else _re.compile(self.pattern, self.flags & ~_re.U)

    def match(self, s, pos=0):
        n = self._native(s)
        if n:
            return n.match(s, pos)
        return self._exists(s, pos, False)

    def fullmatch(self, s, pos=0):
        n = self._native(s)
        if n:
            return n.fullmatch(s, pos)
        return self._exists(s, pos, True)

    def _exists(self, s, pos, full):
        f = Formula(self, s)
        try:
            ends = f.seq(self.tree, {pos: True})
        except NotImplementedError:
            return self._first(s, pos, full)
        if full:
            ends = {e: c for e, c in ends.items() if e == len(s)}
        if not symstr.chars().ctx.fork(f.any(ends.values())):
            return None
        return Lazy(self, s, pos, full)

    def _first(self, s, pos, full=False, notempty=False):
        for end, groups in Back(self, s).seq(self.tree, 0, pos, {}):
            if full and end != len(s):
                continue
            if notempty and end == pos:
                continue
            return Found(self, s, pos, end, groups)
        return None

    def search(self, s, pos=0):
        n = self._native(s)
        if n:
            return n.search(s, pos)
        for i in range(pos, len(s) + 1):
            m = self._first(s, i)
            if m:
                return m
        return None

    def finditer(self, s):
        n = self._native(s)
        if n:
            yield from n.finditer(s)
            return
        i, last = 0, -1
        while i <= len(s):
            m = None
            j = i
            while j <= len(s):
                m = self._first(s, j, notempty=(j == last))
                if m:
                    break
                j += 1
            if not m:
                return
            yield m
            i = m.end()
            last = i

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(tuple(g if g is not None else '' for g in m.groups()))
        return out

    def subn(self, repl, s, count=0):
        n = self._native(s)
        if n and not (isinstance(repl, str) and symstr.is_sym(repl)):
            return n.subn(repl, s, count)
        out, i, k = '', 0, 0
        for m in self.finditer(s):
            if count and k >= count:
                break
            out += s[i:m.start()]
            out += repl(m) if callable(repl) else m.expand(repl)
            i = m.end()
            k += 1
        return out + s[i:], k

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        n = self._native(s)
        if n:
            return n.split(s, maxsplit)
        out, i = [], 0
        for k, m in enumerate(self.finditer(s)):
            if maxsplit and k >= maxsplit:
                break
            out.append(s[i:m.start()])
            out.extend(m.groups())
            i = m.end()
        out.append(s[i:])
        return out


class Found:
    def __init__(self, pat, s, start, end, groups):
        self.re, self.string = pat, s
        self._span = dict(groups)
        self._span[0] = (start, end)

    def _key(self, g):
        return self.re.groupindex[g] if isinstance(g, str) else g

    def span(self, g=0):
        return self._span.get(self._key(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            k = self._key(g)
            if not 0 <= k <= self.re.groups:
                raise IndexError('no such group')
            a, b = self.span(k)
            out.append(None if a < 0 else self.string[a:b])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self.group(i + 1) is None else self.group(i + 1) for i in range(self.re.groups))

    def groupdict(self, default=None):
        return {k: (default if self.group(k) is None else self.group(k)) for k in self.re.groupindex}

    @property
    def lastindex(self):
        raise core.Inconclusive('lastindex')

    @property
    def lastgroup(self):
        raise core.Inconclusive('lastgroup')

    def expand(self, template):
        if symstr.is_sym(template):
            for c in template:
                if c >= '\U000F0000' and symstr.chars().eq(c, '\\'):
                    raise core.Inconclusive('symbolic backslash in a template')
        out, i = '', 0
        while i < len(template):
            c = template[i]
            if c != '\\':
                out += c
                i += 1
                continue
            m = _re.match(r'\\(?:g<(\w+)>|(\d{1,2}))', template[i:])
            if m:
                g = m.group(1) or m.group(2)
                g = int(g) if g.isdigit() else g
                out += self.group(g) or ''
                i += m.end()
                continue
            e = template[i:i + 2]
            out += {'\\n': '\n', '\\t': '\t', '\\r': '\r', '\\\\': '\\'}.get(e) or self._bad(e)
            i += 2
        return out

    def _bad(self, e):
        raise error('bad escape %s' % e)


class Lazy(Found):
    """A match that exists; where exactly is found out when it matters."""

    def __init__(self, pat, s, pos, full):
        self.re, self.string = pat, s
        self._pos, self._full = pos, full
        self._known = None

    @property
    def _span(self):
        if self._known is None:
            m = self.re._first(self.string, self._pos, self._full)
            self._known = m._span
        return self._known


_CATS = {
    'CATEGORY_DIGIT': [('0', '9')],
    'CATEGORY_SPACE': [(' ', ' '), ('\t', '\r'), ('\x1c', '\x1f')],
    'CATEGORY_WORD': [('0', '9'), ('a', 'z'), ('A', 'Z'), ('_', '_')],
}


def _cat(name):
    name = str(name).replace('UNI_', '')
    neg = '_NOT_' in name
    return _CATS[name.replace('_NOT_', '_')], neg


class Formula:
    def __init__(self, pat, s):
        self.pat = pat
        self.s = s
        self.t = symstr.chars()
        self.z3 = self.t.ctx.z3

    def any(self, cs):
        cs = list(cs)
        if any(c is True for c in cs):
            return self.z3.BoolVal(True)
        cs = [c for c in cs if c is not False]
        return self.z3.Or(cs) if cs else self.z3.BoolVal(False)

    def conj(self, a, b):
        if a is True:
            return b
        if b is True:
            return a
        if a is False or b is False:
            return False
        return self.z3.And(a, b)

    def disj(self, a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        return self.z3.Or(a, b)

    def neg(self, a):
        return (not a) if isinstance(a, bool) else self.z3.Not(a)

    def is_(self, c, o):
        e = self.t.expr(c)
        if BASE_LE(o):
            o = self.t.expr(chr(o))
        if isinstance(e, int) and isinstance(o, int):
            return e == o
        return self.t.ctx.values._z3(e) == o

    def rng(self, c, lo, hi):
        e = self.t.expr(c)
        lo, hi = (self.t.expr(chr(x)) if BASE_LE(x) else x for x in (lo, hi))
        if isinstance(e, int) and isinstance(lo, int) and isinstance(hi, int):
            return lo <= e <= hi
        e = self.t.ctx.values._z3(e)
        return self.z3.And(e >= lo, e <= hi)

    def char(self, op, av, c):
        """Whether a single-character item matches a character."""
        if op is _sc.LITERAL:
            return self.is_(c, av)
        if op is _sc.NOT_LITERAL:
            return self.neg(self.is_(c, av))
        if op is _sc.ANY:
            return True if self.pat.flags & _re.DOTALL else self.neg(self.is_(c, 10))
        if op is _sc.IN:
            negate, r = False, False
            for o, v in av:
                if o is _sc.NEGATE:
                    negate = True
                elif o is _sc.LITERAL:
                    r = self.disj(r, self.is_(c, v))
                elif o is _sc.RANGE:
                    r = self.disj(r, self.rng(c, *v))
                elif o is _sc.CATEGORY:
                    rs, neg = _cat(v)
                    x = False
                    for lo, hi in rs:
                        x = self.disj(x, self.rng(c, ord(lo), ord(hi)))
                    r = self.disj(r, self.neg(x) if neg else x)
                else:
                    raise core.Inconclusive('regular expression %r' % (o,))
            return self.neg(r) if negate else r
        return None

    def at(self, av, i):
        s = self.s
        if av is _sc.AT_BEGINNING_STRING:
            return i == 0
        if av is _sc.AT_END_STRING:
            return i == len(s)
        if av is _sc.AT_BEGINNING:
            if i == 0:
                return True
            return self.is_(s[i - 1], 10) if self.pat.flags & _re.MULTILINE else False
        if av is _sc.AT_END:
            if i == len(s):
                return True
            if self.pat.flags & _re.MULTILINE:
                return self.is_(s[i], 10)
            return self.is_(s[i], 10) if i == len(s) - 1 else False
        if av in (_sc.AT_BOUNDARY, _sc.AT_NON_BOUNDARY):
            def word(j):
                if not 0 <= j < len(s):
                    return False
                return self.char(_sc.IN, [(_sc.CATEGORY, _sc.CATEGORY_WORD)], s[j])
            a, b = word(i - 1), word(i)
            r = self.disj(self.conj(a, self.neg(b)), self.conj(self.neg(a), b))
            return r if av is _sc.AT_BOUNDARY else self.neg(r)
        raise core.Inconclusive('regular expression %r' % (av,))

    def add(self, d, i, c):
        if c is not False:
            d[i] = self.disj(d.get(i, False), c)

    def seq(self, nodes, front):
        for op, av in nodes:
            if not front:
                break
            front = self.node(op, av, front)
        return front

    def node(self, op, av, front):
        out = {}
        if op is _sc.AT:
            for i, c in front.items():
                self.add(out, i, self.conj(c, self.at(av, i)))
        elif op is _sc.BRANCH:
            for alt in av[1]:
                for i, c in self.seq(list(alt), dict(front)).items():
                    self.add(out, i, c)
        elif op is _sc.SUBPATTERN:
            if av[1] or av[2]:
                return self.flagged(av, front)
            return self.seq(list(av[3]), front)
        elif op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            cur = dict(front)
            k = 0
            while cur:
                if k >= lo:
                    for i, c in cur.items():
                        self.add(out, i, c)
                if hi is not _sc.MAXREPEAT and k >= hi or k > len(self.s) + lo:
                    break
                nxt = self.seq(sub, cur)
                k += 1
                if k > lo:
                    # (an empty repetition adds nothing new)
                    nxt = {i: c for i, c in nxt.items() if i > min(cur)}
                cur = nxt
        elif op in (_sc.ASSERT, _sc.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                raise NotImplementedError
            for i, c in front.items():
                r = False
                for x in self.seq(list(sub), {i: True}).values():
                    r = self.disj(r, x)
                self.add(out, i, self.conj(c, r if op is _sc.ASSERT else self.neg(r)))
        else:
            if op not in (_sc.LITERAL, _sc.NOT_LITERAL, _sc.ANY, _sc.IN):
                raise NotImplementedError
            for i, c in front.items():
                if i < len(self.s):
                    self.add(out, i + 1, self.conj(c, self.char(op, av, self.s[i])))
        return out

    def flagged(self, av, front):
        """(?s:...) and the like"""
        if av[1] & _re.IGNORECASE:
            raise core.Inconclusive('ignoring case of symbolic strings')
        old = self.pat.flags
        self.pat.flags = (old | av[1]) & ~av[2]
        try:
            return self.seq(list(av[3]), front)
        finally:
            self.pat.flags = old


def BASE_LE(o):
    return isinstance(o, int) and symstr.BASE <= o <= symstr.TOP


class Back:
    """Matches in the order sre tries them."""

    def __init__(self, pat, s):
        self.pat = pat
        self.s = s
        self.f = Formula(pat, s)
        self.known = {}

    def yes(self, cond):
        if isinstance(cond, bool):
            return cond
        return self.f.t.ctx.fork(cond)

    def ok(self, op, av, i):
        """A test of one character, remembered across forks."""
        c = self.f.t.resolve(self.s[i])
        if c < '\U000F0000':
            return self.yes(self.f.char(op, av, c))
        k = (op, repr(av), self.pat.flags)
        return self.f.t.test(c, k, lambda e: self.f.char(op, av, c) if not isinstance(
            self.f.char(op, av, c), bool) else self.f.z3.BoolVal(self.f.char(op, av, c)))

    def seq(self, nodes, k, i, groups):
        if k == len(nodes):
            yield i, groups
            return
        op, av = nodes[k]
        for j, g in self.node(op, av, i, groups):
            yield from self.seq(nodes, k + 1, j, g)

    def node(self, op, av, i, groups):
        if op is _sc.AT:
            if self.yes(self.f.at(av, i)):
                yield i, groups
        elif op is _sc.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt), 0, i, groups)
        elif op is _sc.SUBPATTERN:
            group, add, dele, sub = av
            old = self.pat.flags
            if add & _re.IGNORECASE:
                raise core.Inconclusive('ignoring case of symbolic strings')
            self.pat.flags = (old | add) & ~dele
            try:
                for j, g in self.seq(list(sub), 0, i, groups):
                    if group is not None:
                        g = dict(g)
                        g[group] = (i, j)
                    new, self.pat.flags = self.pat.flags, old
                    yield j, g
                    self.pat.flags = new
            finally:
                self.pat.flags = old
        elif op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT):
            lo, hi, sub = av
            yield from self.repeat(lo, hi, list(sub), op is _sc.MAX_REPEAT, i, groups, 0)
        elif op in (_sc.ASSERT, _sc.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                w = sum(1 for _ in sub)
                start = i - w
                hit = None
                if start >= 0:
                    for j, g in self.seq(list(sub), 0, start, groups):
                        if j == i:
                            hit = g
                            break
            else:
                hit = next((g for j, g in self.seq(list(sub), 0, i, groups)), None)
            if (hit is not None) == (op is _sc.ASSERT):
                yield i, hit if hit is not None else groups
        elif op is _sc.GROUPREF:
            if av in groups:
                a, b = groups[av]
                if symstr.at(self.s, self.s[a:b], i):
                    yield i + b - a, groups
        elif op in (_sc.LITERAL, _sc.NOT_LITERAL, _sc.ANY, _sc.IN):
            if i < len(self.s) and self.ok(op, av, i):
                yield i + 1, groups
        else:
            raise core.Inconclusive('regular expression %r' % (op,))

    def repeat(self, lo, hi, sub, greedy, i, groups, n):
        more = hi is _sc.MAXREPEAT or n < hi
        if n < lo:
            for j, g in self.seq(sub, 0, i, groups):
                yield from self.repeat(lo, hi, sub, greedy, j, g, n + 1)
            return
        if not greedy:
            yield i, groups
        if more:
            for j, g in self.seq(sub, 0, i, groups):
                if j > i:
                    yield from self.repeat(lo, hi, sub, greedy, j, g, n + 1)
        if greedy:
            yield i, groups


def compile(pattern, flags=0):
    if isinstance(pattern, (Pattern, _NativePattern)):
        return pattern if isinstance(pattern, Pattern) else Pattern(pattern.pattern, pattern.flags & ~_re.U) \
            if isinstance(pattern.pattern, str) else pattern
    if not isinstance(pattern, str):
        return _re.compile(pattern, flags)
    return Pattern(pattern, int(flags))


def match(pattern, s, flags=0):
    return compile(pattern, flags).match(s)


def fullmatch(pattern, s, flags=0):
    return compile(pattern, flags).fullmatch(s)


def search(pattern, s, flags=0):
    return compile(pattern, flags).search(s)


def sub(pattern, repl, s, count=0, flags=0):
    return compile(pattern, flags).sub(repl, s, count)


def subn(pattern, repl, s, count=0, flags=0):
    return compile(pattern, flags).subn(repl, s, count)


def findall(pattern, s, flags=0):
    return compile(pattern, flags).findall(s)


def finditer(pattern, s, flags=0):
    return compile(pattern, flags).finditer(s)


def split(pattern, s, maxsplit=0, flags=0):
    return compile(pattern, flags).split(s, maxsplit)
