"""Path-forking symbolic execution core.

A harness is a Python function h(ctx) that drives the *real* fbuild code.  All
nondeterminism (inputs, file contents, clocks, fault positions, schedules) is
drawn from ctx as symbolic variables.  When the code under test branches on a
symbolic value, SymBool.__bool__ asks z3 which sides are feasible under the path
condition and forks; an assertion (ctx.check) is decided by asking z3 whether
its negation is satisfiable together with the path condition.

The same harness runs in concrete mode (ConcreteCtx, no z3 needed) under the
deployment interpreter to replay a counterexample against the real code.
"""
import json
import os
import sys
import time

CURRENT = None          # the active ctx of this process


class PathEnd(BaseException):
    """The current path is finished (assumption infeasible, or cut)."""


class PathViolation(BaseException):
    """An assertion was refuted on this path."""


class Hang(BaseException):
    """The path did not finish in time."""


class Inconclusive(BaseException):
    """z3 answered unknown, or a proxy could not represent an operation."""


def relative(text):
    """Observations must not depend on the scratch directory."""
    return text.replace(os.environ.get('SYMX_SCRATCH', '\0'), '$SCRATCH')


def current():
    return CURRENT


def set_current(ctx):
    global CURRENT
    CURRENT = ctx


# ---------------------------------------------------------------------------
# concrete mode

class ConcreteCtx:
    """Runs a harness with the values of one solver model."""
    symbolic = False

    def __init__(self, model, params=None):
        self.model = model['vars']
        self.funs = model.get('funs', {})
        self.params = params or {}
        self.failures = []
        self.observed = []
        self.tags = {}

    def _get(self, name, default):
        return self.model.get(name, default)

    def int(self, name, lo=None, hi=None):
        v = self._get(name, None)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 0)
        return int(v)

    atom = int

    def real4(self, name, lo=None, hi=None):
        """a number of quarter units, as a float"""
        v = self._get(name, None)
        if v is None:
            v = lo if lo is not None else 0
        return int(v) / 4.0

    def bool(self, name):
        return bool(self._get(name, False))

    def pick(self, name, options):
        if isinstance(options, int):
            options = range(options)
        options = list(options)
        v = int(self._get(name, 0))
        if not 0 <= v < len(options):
            v = 0
        return options[v]

    def text(self, name, lo, hi, ranges=((32, 126),)):
        n = lo if lo == hi else self.pick(name + '_len', range(lo, hi + 1))
        return ''.join(chr(int(self._get('%s_%d' % (name, i), ranges[0][0]))) for i in range(n))

    def ufbool(self, name, *args):
        key = ','.join(str(int(a)) for a in args)
        return bool(self.funs.get(name, {}).get(key, False))

    def assume(self, cond):
        if not cond:
            raise PathEnd('assumption does not hold in the replay')

    def check(self, cond, label, detail=None):
        if callable(cond):
            cond = cond()
        if not cond:
            self.failures.append(label)
            raise PathViolation(label if detail is None else '%s: %s' % (label, detail))

    def fail(self, label, detail=None):
        self.check(False, label, detail)

    def reach(self, label):
        pass

    def observe(self, value):
        self.observed.append(relative(repr(value)))

    def sample(self, **kw):
        pass

    def is_true(self, cond):
        return bool(cond)

    def eq(self, a, b):
        return a == b

    def all(self, conds):
        return all(bool(c) for c in conds)

    def any(self, conds):
        return any(bool(c) for c in conds)

    def neg(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def note(self, text):
        print('   ', text)


# ---------------------------------------------------------------------------
# symbolic mode

class SymCtx:
    symbolic = True

    def __init__(self, prefix, params, stats):
        import z3
        from . import values
        self.z3 = z3
        self.values = values
        self.params = params or {}
        self.prefix = prefix
        self.trace = []
        self.pending = []       # alternative prefixes discovered
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set('timeout', 60000)
        self.vars = {}          # name -> z3 expr
        self.funapps = []       # (name, args, app)
        self.pc = []
        self.model = None       # a model of the path condition, if known
        self.observed = []
        self.violations = []
        self.reached = set()
        self.tags = {}
        self.canon = {}
        self._fresh = 0
        self.sampled = None
        self.asserting = False

    # -- solver plumbing ----------------------------------------------------

    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.perf_counter() - t
        self.stats['queries'] += 1
        if r == self.z3.unknown:
            raise Inconclusive('solver answered unknown: %s' % self.solver.reason_unknown())
        return r == self.z3.sat

    def _add(self, cond):
        self.solver.add(cond)
        self.pc.append(cond)

    def _ensure_model(self):
        if self.model is None:
            if not self._check():
                raise PathEnd('infeasible')
            self.model = self.solver.model()

    def fork(self, cond):
        """Branch on a z3 boolean."""
        z3 = self.z3
        given = cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.asserting:
            return self._decided(cond)
        i = len(self.trace)
        # the condition is recorded too, to notice a harness that does not
        # repeat itself (as given: what simplifying yields depends on history)
        h = '%04x' % (given.hash() & 0xffff)
        if i < len(self.prefix):
            d = self.prefix[i]
            if not isinstance(d, str) or d[1:] != h:
                raise Inconclusive('non-deterministic replay of a path prefix')
            self.trace.append(d)
            if d[0] == 'T' or d[0] == 'F':
                self._add(cond if d[0] == 'T' else z3.Not(cond))
                self.model = None
            # 't'/'f': implied by the path condition, nothing to add
            return d[0] in 'Tt'
        self._ensure_model()
        side = z3.is_true(self.model.eval(cond, model_completion=True))
        other = z3.Not(cond) if side else cond
        if self._check(other):
            # both sides feasible
            self.stats['forks'] += 1
            self.pending.append(self.trace + [('F' if side else 'T') + h])
            self.trace.append(('T' if side else 'F') + h)
            self._add(cond if side else z3.Not(cond))
        else:
            self.trace.append(('t' if side else 'f') + h)
        return side

    def _decided(self, cond):
        """Assertions are not evaluated while a prefix is replayed, so nothing
        may fork in them."""
        if not self._check(self.z3.Not(cond)):
            return True
        if not self._check(cond):
            return False
        raise Inconclusive('fork inside of an assertion: %s' % cond)

    def candidate(self, e):
        """A value e can take under the path condition, remembered in the trace
        so that replaying a prefix enumerates the same values."""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if isinstance(d, str):
                raise Inconclusive('non-deterministic replay of a path prefix')
            v = d[0]
        else:
            self._ensure_model()
            v = self.model.eval(e, model_completion=True).as_long()
        self.trace.append((v,))
        return v

    # -- variables ------------------------------------------------------------

    def _name(self, name):
        if name in self.vars:
            n = 1
            while '%s~%d' % (name, n) in self.vars:
                n += 1
            name = '%s~%d' % (name, n)
        return name

    def zint(self, name, lo=None, hi=None):
        assert name not in self.vars, 'duplicate symbolic variable %s' % name
        v = self.z3.Int(name)
        self.vars[name] = v
        if lo is not None:
            self._add(v >= lo)
        if hi is not None:
            self._add(v <= hi)
        if lo is not None or hi is not None:
            self.model = None
        return v

    def int(self, name, lo=None, hi=None):
        return self.values.SymInt.make(self.zint(name, lo, hi))

    def atom(self, name, lo=None, hi=None):
        return self.values.Atom(self.zint(name, lo, hi))

    def real4(self, name, lo=None, hi=None):
        k = self.zint(name, lo, hi)
        return self.values.SymReal.make(self.z3.ToReal(k) / 4)

    def bool(self, name):
        assert name not in self.vars, 'duplicate symbolic variable %s' % name
        v = self.z3.Bool(name)
        self.vars[name] = v
        return self.values.SymBool(v)

    def pick(self, name, options):
        """A symbolic choice, concretised by forking."""
        if isinstance(options, int):
            options = range(options)
        options = list(options)
        v = self.zint(name, 0, len(options) - 1)
        for i in range(len(options) - 1):
            if self.fork(v == i):
                return options[i]
        return options[-1]

    def text(self, name, lo, hi, ranges=((32, 126),)):
        """A string of lo..hi symbolic characters (code point ranges)."""
        from . import symstr
        z3 = self.z3
        n = lo if lo == hi else self.pick(name + '_len', range(lo, hi + 1))
        out = ''
        for i in range(n):
            v = self.zint('%s_%d' % (name, i), ranges[0][0], ranges[-1][1])
            if len(ranges) > 1:
                self._add(z3.Or([z3.And(v >= a, v <= b) for a, b in ranges]))
            out += symstr.chars().new(v, ranges)
        return out

    def ufbool(self, name, *args):
        z3 = self.z3
        args = [self.values.to_z3(a) for a in args]
        f = z3.Function(name, *([z3.IntSort()] * len(args) + [z3.BoolSort()]))
        app = f(*args)
        self.funapps.append((name, args, app))
        return self.values.SymBool(app)

    # -- assertions -------------------------------------------------------------

    def _bool(self, cond):
        z3 = self.z3
        if callable(cond):
            cond = cond()
        if isinstance(cond, self.values.SymBool):
            return cond.expr
        if z3.is_expr(cond):
            return cond
        if isinstance(cond, bool):
            return z3.BoolVal(cond)
        return z3.BoolVal(bool(cond))

    def assume(self, cond):
        cond = self.z3.simplify(self._bool(cond))
        if self.z3.is_true(cond):
            return
        if self.z3.is_false(cond):
            raise PathEnd('assume')
        self._add(cond)
        self.model = None
        if len(self.trace) >= len(self.prefix):
            self._ensure_model()

    def check(self, cond, label, detail=None):
        """Assert cond for every value allowed by the path condition."""
        self.stats['asserts'] += 1
        self.reached.add(label)
        z3 = self.z3
        if len(self.trace) < len(self.prefix):
            # decided on the path this one was forked from
            return
        self.asserting = True
        try:
            c = z3.simplify(self._bool(cond))
        finally:
            self.asserting = False
        if z3.is_true(c):
            return
        if self._check(z3.Not(c)):
            m = self.solver.model()
            self.violations.append({
                'label': label, 'detail': self.values.plain(self.values.evaluate(self, m, detail)),
                'model': self.extract(m),
            })
            raise PathViolation(label)
        # proven under the path condition

    def fail(self, label, detail=None):
        self.check(self.z3.BoolVal(False), label, detail)
        # only reachable while replaying a prefix
        raise PathEnd('prefix')

    def reach(self, label):
        self.reached.add(label)

    def observe(self, value):
        self.observed.append(value)

    def sample(self, **kw):
        self.sampled = kw

    def is_true(self, cond):
        return bool(self.values.SymBool(self._bool(cond)))

    def eq(self, a, b):
        return self.values.deep_eq(a, b)

    def all(self, conds):
        return self.values.SymBool(self.z3.And([self._bool(c) for c in conds] + [True]))

    def any(self, conds):
        return self.values.SymBool(self.z3.Or([self._bool(c) for c in conds] + [False]))

    def neg(self, c):
        return self.values.SymBool(self.z3.Not(self._bool(c)))

    def implies(self, a, b):
        return self.values.SymBool(self.z3.Implies(self._bool(a), self._bool(b)))

    def note(self, text):
        pass

    # -- models ------------------------------------------------------------------

    def _val(self, m, e):
        z3 = self.z3
        v = m.eval(e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_rational_value(v):
            return [v.numerator_as_long(), v.denominator_as_long()]
        raise Inconclusive('no value for %s' % e)

    def extract(self, m):
        vars = {n: self._val(m, e) for n, e in self.vars.items()}
        funs = {}
        for name, args, app in self.funapps:
            key = ','.join(str(self._val(m, a)) for a in args)
            funs.setdefault(name, {})[key] = self._val(m, app)
        return {'vars': vars, 'funs': funs}

    def end_model(self):
        """A model of the complete path condition, with the observations
        evaluated in it (used to validate the symbolic run against the real
        interpreter)."""
        if not self._check():
            raise PathEnd('infeasible')
        m = self.solver.model()
        return {'model': self.extract(m),
                'observed': [relative(repr(self.values.evaluate(self, m, o))) for o in self.observed]}
