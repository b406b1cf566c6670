"""Symbolic value proxies."""
import z3
import z3.z3

# the API's own argument checks are costly; the expressions built here are
# well-sorted by construction
z3.z3.Z3_DEBUG = False

from . import core

# payload -> expr: proxies that get flattened to their C payload by sqlite or
# by arithmetic in C code are recognised again by their unique payload.
_REAL_PAYLOADS = {}
_ATOMS = {}


def reset():
    _REAL_PAYLOADS.clear()
    _ATOMS.clear()


def ctx():
    return core.CURRENT


def to_z3(v):
    if isinstance(v, (SymInt, SymReal, Atom, SymBool)):
        return v.expr
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        e = _REAL_PAYLOADS.get(v)
        if e is not None:
            return e
        return z3.RealVal(repr(v))
    raise TypeError(type(v))


class SymBool:
    __slots__ = ('expr',)

    def __init__(self, expr):
        self.expr = expr

    def __bool__(self):
        return core.CURRENT.fork(self.expr)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.expr, o.expr))
        return SymBool(z3.And(self.expr, z3.BoolVal(bool(o))))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.expr, o.expr))
        return SymBool(z3.Or(self.expr, z3.BoolVal(bool(o))))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.expr))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.expr == o.expr)
        if isinstance(o, (bool, int)):
            if o == 1:
                return self
            if o == 0:
                return SymBool(z3.Not(self.expr))
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return SymBool(z3.Not(r.expr)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return '<SymBool>'

    def __reduce__(self):
        i = len(_ATOMS)
        _ATOMS[i] = self
        return (_get_atom, (i,))


class Atom:
    """An opaque value: only equality is observable."""
    __slots__ = ('expr', '__weakref__')

    def __init__(self, expr):
        self.expr = expr

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, Atom):
            return SymBool(self.expr == o.expr)
        if isinstance(o, SymInt):
            return SymBool(self.expr == o.expr)
        if isinstance(o, int) and not isinstance(o, bool):
            return SymBool(self.expr == o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, SymBool):
            return SymBool(z3.Not(r.expr))
        return not r

    def cls(self):
        """Canonical representative number: forks on equality with the atoms
        canonicalised before."""
        reps = core.CURRENT.canon.setdefault('atoms', [])
        for i, e in enumerate(reps):
            if core.CURRENT.fork(self.expr == e):
                return i
        reps.append(self.expr)
        return len(reps) - 1

    def __hash__(self):
        return hash(('atom', self.cls()))

    def __repr__(self):
        return '<atom %s>' % self.cls()

    def __str__(self):
        return 'atom%d' % self.cls()

    def __reduce__(self):
        i = len(_ATOMS)
        _ATOMS[i] = self
        return (_get_atom, (i,))


def _get_atom(i):
    return _ATOMS[i]


def _concretise(expr, limit=200):
    """Enumerate the values of an integer expression by forking."""
    c = core.CURRENT
    e = z3.simplify(expr)
    if z3.is_int_value(e):
        return e.as_long()
    for _ in range(limit):
        v = c.candidate(e)
        if c.fork(e == v):
            return v
    raise core.Inconclusive('too many values for %s' % e)


def _arith(name, refl=False):
    def op(self, o):
        try:
            b = to_z3(o)
        except TypeError:
            return NotImplemented
        a = self.expr
        if z3.is_bool(b):
            b = z3.If(b, 1, 0)
        if refl:
            a, b = b, a
        if name == 'add':
            r = a + b
        elif name == 'sub':
            r = a - b
        elif name == 'mul':
            r = a * b
        return wrap(r)
    return op


def wrap(r):
    if z3.is_int(r):
        return SymInt.make(r)
    if z3.is_real(r):
        return SymReal.make(r)
    if z3.is_bool(r):
        return SymBool(r)
    raise TypeError(r)


def _cmp(name):
    def op(self, o):
        try:
            b = to_z3(o)
        except TypeError:
            return NotImplemented
        a = self.expr
        if z3.is_bool(b):
            b = z3.If(b, 1, 0)
        r = {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b,
             'ge': lambda: a >= b, 'eq': lambda: a == b, 'ne': lambda: a != b}[name]()
        return SymBool(r)
    return op


class SymInt(int):
    """A symbolic Python int."""
    @classmethod
    def make(cls, expr):
        self = int.__new__(cls, 0)
        self.expr = expr
        return self

    def _c(self):
        return _concretise(self.expr)

    __add__ = _arith('add'); __radd__ = _arith('add', True)
    __sub__ = _arith('sub'); __rsub__ = _arith('sub', True)
    __mul__ = _arith('mul'); __rmul__ = _arith('mul', True)
    __lt__ = _cmp('lt'); __le__ = _cmp('le'); __gt__ = _cmp('gt'); __ge__ = _cmp('ge')
    __eq__ = _cmp('eq'); __ne__ = _cmp('ne')

    def __neg__(self):
        return SymInt.make(-self.expr)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt.make(z3.If(self.expr < 0, -self.expr, self.expr))

    def __bool__(self):
        return core.CURRENT.fork(self.expr != 0)

    def __hash__(self):
        return hash(self._c())

    def __index__(self):
        return self._c()
    __int__ = __index__

    def __float__(self):
        return float(self._c())

    def __repr__(self):
        return repr(self._c())
    __str__ = __repr__

    def __format__(self, spec):
        return format(self._c(), spec)

    def __floordiv__(self, o):
        return self._c() // o

    def __mod__(self, o):
        return self._c() % o

    def __truediv__(self, o):
        return self._c() / o

    def __and__(self, o):
        return self._c() & int(o)
    __rand__ = __and__

    def __or__(self, o):
        return self._c() | int(o)
    __ror__ = __or__

    def __xor__(self, o):
        return self._c() ^ int(o)
    __rxor__ = __xor__

    def __lshift__(self, o):
        return self._c() << int(o)

    def __rshift__(self, o):
        return self._c() >> int(o)

    def __invert__(self):
        return SymInt.make(-self.expr - 1)

    def __reduce__(self):
        i = len(_ATOMS)
        _ATOMS[i] = self
        return (_get_atom, (i,))


class SymReal(float):
    """A symbolic Python float, modelled as a rational (all values the
    harnesses create are quarter units, which floats represent exactly)."""
    @classmethod
    def make(cls, expr):
        payload = 1000003.40625 + len(_REAL_PAYLOADS)
        self = float.__new__(cls, payload)
        self.expr = expr
        self.payload = payload
        _REAL_PAYLOADS[payload] = expr
        return self

    __add__ = _arith('add'); __radd__ = _arith('add', True)
    __sub__ = _arith('sub'); __rsub__ = _arith('sub', True)
    __mul__ = _arith('mul'); __rmul__ = _arith('mul', True)
    __lt__ = _cmp('lt'); __le__ = _cmp('le'); __gt__ = _cmp('gt'); __ge__ = _cmp('ge')
    __eq__ = _cmp('eq'); __ne__ = _cmp('ne')

    def __neg__(self):
        return SymReal.make(-self.expr)

    def __abs__(self):
        return SymReal.make(z3.If(self.expr < 0, -self.expr, self.expr))

    def __bool__(self):
        return core.CURRENT.fork(self.expr != 0)

    def __int__(self):
        # exact for the nonnegative values the harnesses create
        return _concretise(z3.ToInt(self.expr))
    __trunc__ = __int__
    __floor__ = __int__

    def __ceil__(self):
        return -_concretise(z3.ToInt(-self.expr))

    def __round__(self, nd=None):
        k = _concretise(z3.ToInt(self.expr * 4))
        return round(k / 4.0) if nd is None else round(k / 4.0, nd)

    def __floordiv__(self, o):
        return (_concretise(z3.ToInt(self.expr * 4)) / 4.0) // o

    def __mod__(self, o):
        return (_concretise(z3.ToInt(self.expr * 4)) / 4.0) % o

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, (SymInt, SymReal)):
            return SymReal.make(self.expr / z3.RealVal(repr(o)))
        return (_concretise(z3.ToInt(self.expr * 4)) / 4.0) / float(o)

    def __float__(self):
        return self

    def is_integer(self):
        return core.CURRENT.fork(z3.IsInt(self.expr))

    def __hash__(self):
        return hash(_concretise(z3.ToInt(self.expr * 4)) / 4.0)

    def __repr__(self):
        return repr(_concretise(z3.ToInt(self.expr * 4)) / 4.0)
    __str__ = __repr__

    def __format__(self, spec):
        return format(_concretise(z3.ToInt(self.expr * 4)) / 4.0, spec)

    def __reduce__(self):
        i = len(_ATOMS)
        _ATOMS[i] = self
        return (_get_atom, (i,))


def deep_eq(a, b):
    """Structural equality as one formula (no forking)."""
    e = _deep(a, b)
    return SymBool(e) if z3.is_expr(e) else SymBool(z3.BoolVal(bool(e)))


def _deep(a, b):
    if isinstance(a, (SymInt, SymReal, Atom, SymBool)) or isinstance(b, (SymInt, SymReal, Atom, SymBool)):
        try:
            x, y = to_z3(a), to_z3(b)
        except TypeError:
            return False
        if z3.is_bool(x) != z3.is_bool(y):
            return False
        return x == y
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        parts = [_deep(x, y) for x, y in zip(a, b)]
        if any(p is False for p in parts):
            return False
        parts = [p for p in parts if p is not True]
        return z3.And(parts) if parts else True
    if isinstance(a, str) and isinstance(b, str):
        if not (_sym(a) or _sym(b)):
            return str.__eq__(str(a), str(b))
        if len(a) != len(b):
            return False
        t = core.CURRENT.chartable
        parts = []
        for x, y in zip(str(a), str(b)):
            x, y = t.expr(x), t.expr(y)
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return False
            else:
                parts.append(_z3(x) == y)
        return z3.And(parts) if parts else True
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and \
            any(isinstance(x, str) and _sym(x) for y in (a, b) for x in y):
        def sub(x, y):
            return z3.And([z3.Or([_z3(_deep(i, j)) for j in y] + [False]) for i in x] + [True])
        return z3.And(sub(a, b), sub(b, a))
    if isinstance(a, dict) and isinstance(b, dict):
        if any(isinstance(x, str) and _sym(x) for y in (a, b) for x in y):
            return _deep([list(i) for i in a.items()], [list(i) for i in b.items()])
        if set(a) != set(b):
            return False
        parts = [_deep(a[k], b[k]) for k in a]
        if any(p is False for p in parts):
            return False
        parts = [p for p in parts if p is not True]
        return z3.And(parts) if parts else True
    return bool(a == b)


def _sym(s):
    return any(ch >= '\U000F0000' for ch in s)


def _z3(e):
    if isinstance(e, bool):
        return z3.BoolVal(e)
    return z3.IntVal(e) if isinstance(e, int) else e


def evaluate(c, m, v):
    """The concrete value of v in model m (for observations)."""
    if isinstance(v, (SymInt, Atom, SymBool)):
        return c._val(m, v.expr)
    if isinstance(v, SymReal):
        r = m.eval(v.expr, model_completion=True)
        return r.numerator_as_long() / r.denominator_as_long()
    if isinstance(v, str) and _sym(v):
        t = c.chartable

        def char(x):
            e = t.expr(x)
            return chr(e if isinstance(e, int) else m.eval(e, model_completion=True).as_long())
        return ''.join(map(char, str(v)))
    if isinstance(v, (set, frozenset)):
        return type(v)(evaluate(c, m, x) for x in v)
    if isinstance(v, list):
        return [evaluate(c, m, x) for x in v]
    if isinstance(v, tuple):
        return tuple(evaluate(c, m, x) for x in v)
    if isinstance(v, dict):
        return {evaluate(c, m, k): evaluate(c, m, x) for k, x in v.items()}
    return v


def plain(v):
    """v as something that can be sent and saved."""
    if v is None or isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, str):
        return str.__str__(v) if type(v) is not str else v
    if isinstance(v, (list, tuple, set, frozenset)):
        out = [plain(x) for x in v]
        return tuple(out) if isinstance(v, tuple) else sorted(out, key=repr) if isinstance(v, (set, frozenset)) else out
    if isinstance(v, dict):
        return {str(plain(k)): plain(x) for k, x in v.items()}
    try:
        return repr(v)
    except Exception:
        return type(v).__name__
