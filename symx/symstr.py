"""Strings with symbolic characters.

A symbolic character is represented by a code point of a private-use plane that
stands for a z3 integer (its code point), so that slicing, concatenation,
formatting, iteration and regular expression *parsing* work natively.  Whatever
looks at the value of characters (comparisons, `in`, str methods, dictionary
lookups, regular expression matching) is redirected here by rewriting the
sources of the modules under test when they are loaded, and forks on the tests
of single characters.  Characters that turn out to be equal to each other or to
a constant are merged."""
import ast
import types

from . import core, fresh

BASE = 0xF0000
TOP = BASE + 0xFFFF


def is_sym(s):
    return isinstance(s, str) and any(ch >= '\U000F0000' for ch in s)


class Chars:
    def __init__(self, ctx):
        self.ctx = ctx
        self.exprs = []
        self.ranges = {}
        self.link = {}          # payload char -> payload char or constant
        self.differ = set()
        self.tested = {}

    def new(self, expr, ranges=None):
        self.exprs.append(expr)
        c = chr(BASE + len(self.exprs) - 1)
        if ranges:
            self.ranges[c] = ranges
        return c

    def may_be(self, c, const):
        rs = self.ranges.get(c)
        return rs is None or any(lo <= ord(const) <= hi for lo, hi in rs)

    def expr(self, c):
        c = self.resolve(c)
        o = ord(c)
        return self.exprs[o - BASE] if BASE <= o <= TOP else o

    def resolve(self, c):
        while c in self.link:
            c = self.link[c]
        return c

    def eq(self, a, b):
        """Whether two characters are equal (forks)."""
        if a == b:
            return True
        if a < '\U000F0000' and b < '\U000F0000':
            return False
        a, b = self.resolve(a), self.resolve(b)
        if a == b:
            return True
        sa, sb = a >= '\U000F0000', b >= '\U000F0000'
        if not sa and not sb:
            return False
        if not sa:
            a, b, sa, sb = b, a, sb, sa
        if (a, b) in self.differ or not sb and not self.may_be(a, b):
            return False
        if self.ctx.fork(self.ctx.values._z3(self.expr(a)) == self.expr(b)):
            if not self.ctx.asserting:
                self.link[a] = b
            return True
        if not self.ctx.asserting:
            self.differ.add((a, b))
            self.differ.add((b, a))
        return False

    def test(self, c, key, mk):
        """A cached test of one character; mk gives the z3 condition."""
        c = self.resolve(c)
        k = (c, key)
        if k not in self.tested:
            r = self.ctx.fork(mk(self.expr(c)))
            if self.ctx.asserting:
                return r
            self.tested[k] = r
        return self.tested[k]


def chars():
    c = core.CURRENT
    t = getattr(c, 'chartable', None)
    if t is None:
        t = c.chartable = Chars(c)
    return t


def norm(s):
    """With everything that is known about the characters filled in."""
    t = chars()
    if not t.link or not is_sym(s):
        return str(s) if type(s) is not str else s
    return ''.join(t.resolve(c) for c in s)


def either(a, b):
    return is_sym(a) or is_sym(b)


# -- comparisons -------------------------------------------------------------

def eq(a, b):
    if len(a) != len(b):
        return False
    t = chars()
    return all(t.eq(x, y) for x, y in zip(str(a), str(b)))


def lt(a, b):
    t = chars()
    for x, y in zip(str(a), str(b)):
        if not t.eq(x, y):
            x, y = t.resolve(x), t.resolve(y)
            return t.test(x, ('<', y), lambda e: t.ctx.values._z3(e) < t.expr(y))
    return len(a) < len(b)


def at(s, sub, i):
    return i + len(sub) <= len(s) and eq(s[i:i + len(sub)], sub)


def _range(s, start, end):
    a, b, _ = slice(start, end).indices(len(s))
    return a, b


def find(s, sub, start=None, end=None):
    a, b = _range(s, start, end)
    if a > len(s) or (start is not None and start > len(s)):
        return -1
    for i in range(a, b - len(sub) + 1):
        if at(s, sub, i):
            return i
    return -1


def rfind(s, sub, start=None, end=None):
    a, b = _range(s, start, end)
    for i in range(b - len(sub), a - 1, -1):
        if at(s, sub, i):
            return i
    return -1


def contains(s, sub):
    return find(s, sub) >= 0


def startswith(s, prefix, start=None, end=None):
    a, b = _range(s, start, end)
    s = s[a:b]
    if isinstance(prefix, tuple):
        return any(startswith(s, p) for p in prefix)
    return at(s, prefix, 0)


def endswith(s, suffix, start=None, end=None):
    a, b = _range(s, start, end)
    s = s[a:b]
    if isinstance(suffix, tuple):
        return any(endswith(s, p) for p in suffix)
    return len(suffix) <= len(s) and at(s, suffix, len(s) - len(suffix))


SPACE = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f'


def isspace1(c):
    t = chars()
    if c < '\U000F0000':
        return c.isspace()
    return any(t.eq(c, x) for x in SPACE)


def _in(c, cs):
    t = chars()
    return any(t.eq(c, x) for x in cs)


def lstrip(s, cs=None):
    i = 0
    while i < len(s) and (isspace1(s[i]) if cs is None else _in(s[i], cs)):
        i += 1
    return s[i:]


def rstrip(s, cs=None):
    i = len(s)
    while i > 0 and (isspace1(s[i - 1]) if cs is None else _in(s[i - 1], cs)):
        i -= 1
    return s[:i]


def strip(s, cs=None):
    return rstrip(lstrip(s, cs), cs)


def split(s, sep=None, maxsplit=-1):
    out = []
    if sep is None:
        s = lstrip(s)
        while s:
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(s)
                return out
            i = 0
            while i < len(s) and not isspace1(s[i]):
                i += 1
            out.append(s[:i])
            s = lstrip(s[i:])
        return out
    if not sep:
        raise ValueError('empty separator')
    while maxsplit < 0 or len(out) < maxsplit:
        i = find(s, sep)
        if i < 0:
            break
        out.append(s[:i])
        s = s[i + len(sep):]
    out.append(s)
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    if sep is None:
        raise core.Inconclusive('rsplit by whitespace')
    out = []
    while len(out) < maxsplit:
        i = rfind(s, sep)
        if i < 0:
            break
        out.insert(0, s[i + len(sep):])
        s = s[:i]
    out.insert(0, s)
    return out


def partition(s, sep):
    i = find(s, sep)
    return (s, '', '') if i < 0 else (s[:i], s[i:i + len(sep)], s[i + len(sep):])


def rpartition(s, sep):
    i = rfind(s, sep)
    return ('', '', s) if i < 0 else (s[:i], s[i:i + len(sep)], s[i + len(sep):])


def replace(s, old, new, count=-1):
    if old == '':
        return str.replace(s, old, new, count)
    out, i = '', 0
    while i < len(s):
        if count != 0 and at(s, old, i):
            out += new
            i += len(old)
            count -= 1
        else:
            out += s[i]
            i += 1
    return out


def count(s, sub, start=None, end=None):
    a, b = _range(s, start, end)
    s = s[a:b]
    n = i = 0
    while i + len(sub) <= len(s):
        if at(s, sub, i):
            n += 1
            i += max(1, len(sub))
        else:
            i += 1
    return n


def index(s, sub, *a):
    i = find(s, sub, *a)
    if i < 0:
        raise ValueError('substring not found')
    return i


def rindex(s, sub, *a):
    i = rfind(s, sub, *a)
    if i < 0:
        raise ValueError('substring not found')
    return i


def between(c, lo, hi):
    t = chars()
    c = t.resolve(c)
    if c < '\U000F0000':
        return lo <= c <= hi
    z3 = t.ctx.z3
    return t.test(c, ('in', lo, hi), lambda e: z3.And(e >= ord(lo), e <= ord(hi)))


def _ascii(s):
    for c in s:
        if not between(c, '\0', '\x7f'):
            raise core.Inconclusive('non-ASCII characters')


def _case(s, lo, hi, delta):
    t = chars()
    out = ''
    for c in s:
        c = t.resolve(c)
        if c < '\U000F0000':
            out += c.lower() if delta > 0 else c.upper()
        elif between(c, lo, hi):
            out += t.new(t.expr(c) + delta)
        else:
            _ascii(c)
            out += c
    return out


def lower(s):
    return _case(s, 'A', 'Z', 32)


def upper(s):
    return _case(s, 'a', 'z', -32)


def isdigit(s):
    return bool(s) and all(between(c, '0', '9') for c in s)


def isalpha(s):
    return bool(s) and all(between(c, 'a', 'z') or between(c, 'A', 'Z') for c in s)


def isalnum(s):
    return bool(s) and all(between(c, '0', '9') or between(c, 'a', 'z') or between(c, 'A', 'Z') for c in s)


def isidentifier(s):
    return bool(s) and not between(s[0], '0', '9') and all(
        isalnum(c) or chars().eq(c, '_') for c in s)


def isspace(s):
    return bool(s) and all(isspace1(c) for c in s)


def removeprefix(s, p):
    return s[len(p):] if startswith(s, p) else s


def removesuffix(s, p):
    return s[:len(s) - len(p)] if p and endswith(s, p) else s


def splitlines(s, keepends=False):
    out, i, start = [], 0, 0
    t = chars()
    while i < len(s):
        if t.eq(s[i], '\n') or t.eq(s[i], '\r'):
            e = i + 1
            if t.eq(s[i], '\r') and e < len(s) and t.eq(s[e], '\n'):
                e += 1
            out.append(s[start:e if keepends else i])
            start = i = e
        elif any(t.eq(s[i], x) for x in '\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'):
            i += 1
            out.append(s[start:i if keepends else i - 1])
            start = i
        else:
            i += 1
    if start < len(s):
        out.append(s[start:])
    return out


def _join(s, it):
    return str.join(s, it)


METHODS = dict(
    find=find, rfind=rfind, startswith=startswith, endswith=endswith, lstrip=lstrip, rstrip=rstrip, strip=strip,
    split=split, rsplit=rsplit, partition=partition, rpartition=rpartition, replace=replace, count=count,
    index=index, rindex=rindex, lower=lower, casefold=lower, upper=upper, isdigit=isdigit, isdecimal=isdigit,
    isnumeric=isdigit, isalpha=isalpha, isalnum=isalnum, isidentifier=isidentifier, isspace=isspace,
    removeprefix=removeprefix, removesuffix=removesuffix, splitlines=splitlines)
NATIVE = {'join', 'format', '__add__', '__repr__', '__str__', '__len__', '__getitem__', '__new__', 'encode',
          'ljust', 'rjust', 'center', 'format_map', '__iter__'}
NATIVE_ON_SYM = NATIVE - {'encode'}


# harnesses whose consumers of bytes decode them again set this to their number
ENCODABLE = [0]


def format(s, *args, **kw):
    """Fields {name} and {0}, without conversions and formats."""
    if not is_sym(s):
        return str.format(s, *args, **kw)
    out, i, auto = '', 0, 0
    while i < len(s):
        if eq(s[i], '{'):
            if i + 1 == len(s):
                raise ValueError("Single '{' encountered in format string")
            if eq(s[i + 1], '{'):
                out += '{'
                i += 2
                continue
            j = i + 1
            while j < len(s) and not eq(s[j], '}'):
                if eq(s[j], '{'):
                    raise ValueError("unexpected '{' in field name")
                if any(eq(s[j], c) for c in '!:.[]'):
                    raise core.Inconclusive('format of a symbolic string')
                j += 1
            if j == len(s):
                raise ValueError("expected '}' before end of string")
            name = s[i + 1:j]
            if not name:
                out += str(args[auto])
                auto += 1
            elif isdigit(name):
                out += str(args[int(norm(name))])
            else:
                for k in kw:
                    if eq(k, name):
                        out += '{}'.format(kw[k])
                        break
                else:
                    raise KeyError(name)
            i = j + 1
        elif eq(s[i], '}'):
            if i + 1 == len(s) or not eq(s[i + 1], '}'):
                raise ValueError("Single '}' encountered in format string")
            out += '}'
            i += 2
        else:
            out += s[i]
            i += 1
    return out


def encode(s, encoding='utf-8', errors='strict'):
    if not ENCODABLE[0] or encoding.lower() not in ('utf-8', 'utf8'):
        raise core.Inconclusive('str.encode of a symbolic string')
    return str.encode(s, 'utf-8')


METHODS['encode'] = encode
METHODS['format'] = format


# -- hooks that the rewritten sources call --------------------------------------

_STR_EQ = str.__eq__


def _plain_eq(x):
    return type(x).__eq__ is _STR_EQ


def h_eq(a, b):
    if isinstance(a, str) and isinstance(b, str) and either(a, b) and _plain_eq(a) and _plain_eq(b):
        return eq(a, b)
    if type(a) in (list, tuple) and type(a) is type(b) and (has_sym(a) or has_sym(b)):
        return len(a) == len(b) and all(h_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (has_sym(a) or has_sym(b)):
        return all(any(h_eq(x, y) for y in b) for x in a) and all(any(h_eq(x, y) for y in a) for x in b)
    if isinstance(a, dict) and isinstance(b, dict) and (has_sym(a) or has_sym(b)):
        return len(a) == len(b) and all(any(h_eq(x, y) and h_eq(a[x], b[y]) for y in b) for x in a)
    return a == b


def has_sym(x, depth=3):
    if isinstance(x, str):
        return is_sym(x)
    if depth and type(x) in (list, tuple, set, frozenset, dict):
        for y in x:
            if has_sym(y, depth - 1) or (type(x) is dict and has_sym(x[y], depth - 1)):
                return True
    return False


def h_cmp(op, a, b):
    s = isinstance(a, str) and isinstance(b, str) and either(a, b)
    if op == '==':
        return h_eq(a, b)
    if op == '!=':
        if s or type(a) in (list, tuple, set, frozenset, dict):
            return not h_eq(a, b)
        return a != b
    if op in ('in', 'notin'):
        r = h_in(a, b)
        return r if op == 'in' else not r
    if s:
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return not lt(b, a)
        if op == '>=':
            return not lt(a, b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (has_sym(a, 1) or has_sym(b, 1)):
        le, ge = all(h_in(x, b) for x in a), all(h_in(x, a) for x in b)
        return {'<=': le, '>=': ge, '<': le and not ge, '>': ge and not le}[op]
    if type(a) in (list, tuple) and type(a) is type(b) and (has_sym(a) or has_sym(b)):
        for x, y in zip(a, b):
            if not h_eq(x, y):
                return h_cmp(op[0], x, y)
        return {'<': len(a) < len(b), '>': len(a) > len(b),
                '<=': len(a) <= len(b), '>=': len(a) >= len(b)}[op]
    return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()


def h_in(a, b):
    if isinstance(b, str):
        if isinstance(a, str) and either(a, b):
            return contains(b, a)
        return a in b
    if type(b) in (list, tuple, set, frozenset, dict, type({}.keys()), type({}.values())) or \
            isinstance(b, (dict, set, list)):
        if has_sym(a) or any(has_sym(x, 2) for x in b):
            return any(h_eq(a, x) for x in b)
    return a in b


def h_call(obj, name, *args, **kw):
    if isinstance(obj, str) and name in METHODS:
        m = getattr(type(obj), name, None)
        if m is getattr(str, name):
            if is_sym(obj) or any(has_sym(a, 1) for a in args):
                return METHODS[name](str_of(obj), *args, **kw)
    elif isinstance(obj, str) and is_sym(obj) and name not in NATIVE_ON_SYM and hasattr(str, name) and \
            getattr(type(obj), name, None) is getattr(str, name):
        raise core.Inconclusive('str.%s of a symbolic string' % name)
    elif obj is str and args and isinstance(args[0], str) and name in METHODS:
        if is_sym(args[0]) or any(has_sym(a, 1) for a in args[1:]):
            return METHODS[name](str_of(args[0]), *args[1:], **kw)
    elif type(obj) is dict and name in ('get', 'pop', 'setdefault') and args and (
            has_sym(args[0]) or any(has_sym(x) for x in obj)):
        for x in obj:
            if h_eq(x, args[0]):
                return getattr(obj, name)(x, *args[1:])
    elif isinstance(obj, list) and name in ('index', 'count', 'remove') and (has_sym(args[0]) or has_sym(obj, 1)):
        hits = [i for i, x in enumerate(obj) if h_eq(x, args[0])]
        if name == 'count':
            return len(hits)
        if not hits:
            raise ValueError('not in list')
        if name == 'index':
            return hits[0]
        del obj[hits[0]]
        return None
    elif isinstance(obj, list) and name == 'sort' and has_sym(obj):
        obj[:] = h_sorted(obj, **kw)
        return None
    elif isinstance(obj, (set, frozenset)) and (has_sym(obj, 1) or any(has_sym(a, 2) for a in args)):
        return _set_method(obj, name, *args)
    return getattr(obj, name)(*args, **kw)


def _set_method(obj, name, *args):
    if name in ('add', 'discard', 'remove'):
        hit = [x for x in obj if h_eq(x, args[0])]
        if name == 'add':
            if not hit:
                obj.add(args[0])
        elif hit:
            obj.discard(hit[0])
        elif name == 'remove':
            raise KeyError(args[0])
        return None
    if name in ('update', 'union'):
        out = obj if name == 'update' else set(obj)
        for a in args:
            for x in a:
                _set_method(out, 'add', x)
        return None if name == 'update' else type(obj)(out)
    if name in ('difference', 'difference_update', 'intersection'):
        keep = name == 'intersection'
        out = set(x for x in obj if all(any(h_eq(x, y) for y in list(a)) == keep for a in args))
        if name == 'difference_update':
            obj.clear()
            obj.update(out)
            return None
        return type(obj)(out)
    if name in ('copy', 'clear', 'pop', '__len__', '__iter__'):
        return getattr(obj, name)(*args)
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        o = list(args[0])
        if name == 'issubset':
            return all(h_in(x, o) for x in obj)
        if name == 'issuperset':
            return all(h_in(x, obj) for x in o)
        return not any(h_in(x, obj) for x in o)
    raise core.Inconclusive('set.%s of symbolic strings' % name)


def str_of(x):
    return str.__str__(x) if type(x) is not str else x


def h_getitem(obj, key):
    if isinstance(obj, dict) and (has_sym(key) or any(has_sym(x) for x in obj)):
        for x in obj:
            if h_eq(x, key):
                return obj[x]
    return obj[key]


def h_sorted(it, key=None, reverse=False):
    items = list(it)
    keys = [key(x) for x in items] if key else items
    if not has_sym(keys):
        return sorted(items, key=key, reverse=reverse)
    import functools
    order = sorted(range(len(items)), key=functools.cmp_to_key(
        lambda i, j: 0 if h_eq(keys[i], keys[j]) else (-1 if h_cmp('<', keys[i], keys[j]) else 1)), reverse=reverse)
    return [items[i] for i in order]


def h_min(*a, **kw):
    items = list(a[0]) if len(a) == 1 else list(a)
    if not has_sym(items):
        return min(*a, **kw)
    return h_sorted(items, kw.get('key'))[0]


def h_max(*a, **kw):
    items = list(a[0]) if len(a) == 1 else list(a)
    if not has_sym(items):
        return max(*a, **kw)
    return h_sorted(items, kw.get('key'), reverse=True)[0]


def h_int(*a, **kw):
    if a and has_sym(a[0], 0):
        if len(a) > 1 or kw:
            raise core.Inconclusive('int with a base')
        s = strip(a[0])
        if s and between(s[0], '-', '-'):
            raise core.Inconclusive('negative numbers')
        # (underscores and signs are not numbers the code under test means)
        if not isdigit(s):
            for c in s:
                if chars().eq(c, '_') or chars().eq(c, '+'):
                    raise core.Inconclusive('int of unusual text')
            raise ValueError('invalid literal for int()')
        t = chars()
        r = 0
        for c in s:
            r = r * 10 + (t.ctx.values._z3(t.expr(c)) - 48)
        return t.ctx.values.SymInt.make(r)
    return int(*a, **kw)


def h_store(obj, key, value):
    if isinstance(obj, dict) and (has_sym(key) or any(has_sym(x) for x in obj)):
        for x in obj:
            if h_eq(x, key):
                key = x
                break
    obj[key] = value


def h_bin(op, a, b):
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (has_sym(a, 1) or has_sym(b, 1)):
        return _set_method(a, {'|': 'union', '&': 'intersection', '-': 'difference'}[op], b)
    if op == '|':
        return a | b
    if op == '&':
        return a & b
    return a - b


def h_set(*a):
    if a:
        items = list(a[0])
        if has_sym(items, 2):
            out = set()
            for x in items:
                _set_method(out, 'add', x)
            return out
        return set(items)
    return set()


def h_frozenset(*a):
    return frozenset(h_set(*a))


_OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'notin', ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>='}


class _Rewrite(ast.NodeTransformer):
    def _h(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            parts = [ast.Compare(l, [o], [r]) for l, o, r in zip(
                [node.left] + node.comparators[:-1], node.ops, node.comparators)]
            if all(isinstance(c, (ast.Name, ast.Constant, ast.Attribute)) for c in node.comparators[:-1]):
                return ast.copy_location(ast.BoolOp(ast.And(), [self._one(p) for p in parts]), node)
            return node
        return self._one(node)

    def _one(self, node):
        op = _OPS.get(type(node.ops[0]))
        if op is None:
            return node
        return ast.copy_location(self._h('__sx_cmp__', ast.Constant(op), node.left, node.comparators[0]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.ctx, ast.Load):
            if isinstance(node.func.value, ast.Call) and isinstance(node.func.value.func, ast.Name) and \
                    node.func.value.func.id == 'super':
                return node
            return ast.copy_location(ast.Call(
                ast.Name('__sx_call__', ast.Load()),
                [node.func.value, ast.Constant(node.func.attr)] + node.args, node.keywords), node)
        if isinstance(node.func, ast.Name) and node.func.id in ('sorted', 'set', 'frozenset', 'min', 'max', 'int'):
            node.func = ast.copy_location(ast.Name('__sx_%s__' % node.func.id, ast.Load()), node.func)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return ast.copy_location(self._h('__sx_item__', node.value, node.slice), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            return ast.copy_location(ast.Expr(self._h('__sx_store__', t.value, t.slice, node.value)), node)
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._h('__sx_set__', ast.GeneratorExp(node.elt, node.generators)), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = {ast.BitOr: '|', ast.BitAnd: '&', ast.Sub: '-'}.get(type(node.op))
        if op:
            return ast.copy_location(self._h('__sx_bin__', ast.Constant(op), node.left, node.right), node)
        return node

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name in ('re', 'os', 'posixpath', 'os.path'):
                out.append(ast.copy_location(ast.Assign(
                    [ast.Name(a.asname or a.name.split('.')[0], ast.Store())],
                    self._h('__sx_module__', ast.Constant(
                        a.name if a.asname else a.name.split('.')[0]))), node))
            else:
                out.append(ast.copy_location(ast.Import([a]), node))
        return out

    # (annotations are not evaluated as code that matters)
    def visit_arg(self, node):
        return node


HOOKS = {'__sx_cmp__': h_cmp, '__sx_call__': h_call, '__sx_item__': h_getitem, '__sx_sorted__': h_sorted,
         '__sx_set__': h_set, '__sx_int__': h_int, '__sx_store__': h_store, '__sx_bin__': h_bin, '__sx_min__': h_min, '__sx_max__': h_max, '__sx_frozenset__': h_frozenset}


def rewrite(src, path):
    key = (path, 'symstr')
    code = fresh._code.get(key)
    if code is None:
        tree = _Rewrite().visit(ast.parse(src))
        ast.fix_missing_locations(tree)
        code = fresh._code[key] = compile(tree, path, 'exec', dont_inherit=True)
    return code


def _transform(only):
    def transform(name, src, path):
        if only is not None and name not in only:
            return None
        return rewrite(src, path)
    return transform


_PYPY = '/usr/lib/pypy3.9'


def library(name, **globals):
    """A rewritten copy of a module of the deployment interpreter's library."""
    import importlib.util
    import os
    path = '%s/%s.py' % (_PYPY, name)
    if not os.path.exists(path):
        path = importlib.util.find_spec(name).origin
    key = ('library', path)
    with open(path) as f:
        code = fresh._code.get(key) or rewrite(f.read(), path)
    fresh._code[key] = code
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__.update(HOOKS)
    m.__dict__['__sx_module__'] = __import__
    m.__dict__.update(globals)
    exec(code, m.__dict__)
    return m


class OS:
    """The os module with another os.path and, optionally, other functions."""

    def __init__(self, **over):
        import os
        self.__dict__['_os'] = os
        g = library('genericpath')
        p = library('posixpath')
        for n in ('commonprefix', 'exists', 'getatime', 'getctime', 'getmtime', 'getsize', 'isdir', 'isfile',
                  'samefile', 'sameopenfile', 'samestat'):
            p.__dict__[n] = g.__dict__[n]
        p.genericpath = g
        g.os = p.os = self
        self.__dict__['path'] = p
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self._os, k)


def load(ctx, *names, only=None, os=None, **subst):
    """Fresh fbuild modules that understand symbolic strings (natively in
    concrete mode).  subst: module name -> replacement, as imported by them."""
    import sys
    fresh.forget()
    if not ctx.symbolic:
        return fresh.load(*names)
    from . import symre
    o = os or OS()
    mods = {'os': o, 'os.path': o.path, 'posixpath': o.path, 're': symre}
    old, oldi = fresh.transform, dict(fresh.inject)
    fresh.transform = _transform(only)
    fresh.inject.update(HOOKS, __sx_module__=mods.__getitem__)

    def restore():
        fresh.transform = old
        fresh.inject.clear()
        fresh.inject.update(oldi)
    # (for the whole path, as modules may be imported late)
    ctx.cleanups.append(restore)
    out = fresh.load(*names)
    for n, m in list(sys.modules.items()):
        if (n == 'fbuild' or n.startswith('fbuild.')) and (only is None or n in only):
            for k, v in subst.items():
                if k in m.__dict__:
                    m.__dict__[k] = v
    return out
