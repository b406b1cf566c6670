"""The state file: crashes, other versions, explicit deletion."""
import builtins
import os
import pickle
import shutil
import sqlite3
import sys

from symx.world import stop_rpc, World, tok, untok

TEXT = '''
from fbuild.db import caches, PersistentObject, SRC, DST
from fbuild.path import Path

@caches
def f(ctx, a, s: SRC, d: DST):
    return W.body('f', '%(vf)s', ctx, a)

@caches
def g(ctx, a):
    return W.body('g', '%(vg)s', ctx, a)

@caches
def h(ctx, a):
    return W.body('h', '%(vh)s', ctx, a)
%(extra)s
def do_f(ctx, a): return f(ctx, a, Path(W.w.path('s0')), Path(W.w.path('d0')))
def do_g(ctx, a): return g(ctx, a)
def do_h(ctx, a): return h(ctx, a)
'''


class Body:
    """f reads s0, writes d0 and calls g; h registers s1 and d1 itself."""

    def __init__(self, w):
        self.w = w
        self.runs = []

    def body(self, name, ver, ctx, a):
        self.runs.append(name)
        v = untok(ver)
        if name == 'f':
            self.w.write('d0', None)
            return ('f', v, a, self.w.read('s0'), self.mod.do_g(ctx, a))
        if name == 'h':
            self.w.write('d1', None)
            ctx.db.add_external_dependencies_to_call(
                srcs=[self.w.path('s1')], dsts=[self.w.path('d1')])
            return ('h', v, a, self.w.read('s1'))
        return ('g', v, a)

    def fresh(self, name, vers, a):
        if name == 'f':
            return ('f', vers['f'], a, self.w.read('s0'), ('g', vers['g'], a))
        if name == 'h':
            return ('h', vers['h'], a, self.w.read('s1'))
        return ('g', vers['g'], a)


class Crash(BaseException):
    pass


class Crasher:
    """Every operation that changes something on disk is a point where the
    process may die; a write may be torn."""

    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.n = 0
        self.crashed = False
        self.armed = False
        self.at = None
        self.conns = []
        self.saved = {}
        ctx.cleanups.append(self.restore)

    def patch(self, obj, name, new):
        self.saved.setdefault((id(obj), name), (obj, name, getattr(obj, name)))
        setattr(obj, name, new)

    def restore(self):
        for obj, name, old in self.saved.values():
            setattr(obj, name, old)
        self.saved = {}

    def mine(self, path):
        try:
            p = os.path.abspath(str(os.fspath(path)))
        except TypeError:
            return False
        return p.startswith(self.w.path('state.db'))

    def point(self, what):
        """Die here?"""
        if not self.armed:
            return
        if self.crashed:
            raise Crash()
        self.n += 1
        if self.ctx.is_true(self.ctx.eq(self.at, self.n)):
            self.crashed = True
            self.where = what
            raise Crash()

    def install(self, at):
        self.at = at
        me = self

        def wrap(name):
            old = getattr(os, name)

            def op(*a, **k):
                if any(me.mine(x) for x in a[:2]):
                    me.point(name)
                return old(*a, **k)
            self.patch(os, name, op)
        for n in ('rename', 'replace', 'remove', 'unlink', 'link', 'symlink', 'truncate', 'renames'):
            wrap(n)
        old_open = builtins.open

        class Torn:
            def __init__(self, f):
                self.__dict__['f'] = f

            def write(self, data):
                try:
                    me.point('write')
                except Crash:
                    if not self.f.closed:
                        # part of the data may be on disk
                        n = me.ctx.pick('torn', [0, 1, len(data) // 2, len(data) - 1])
                        self.f.write(data[:n])
                        self.f.flush()
                    raise
                return self.f.write(data)

            def close(self):
                self.f.close()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.f.close()

            def __getattr__(self, k):
                return getattr(self.f, k)

        def op_open(file, mode='r', *a, **k):
            if isinstance(mode, str) and set(mode) & set('wax+') and me.mine(file):
                me.point('open')
                return Torn(old_open(file, mode, *a, **k))
            return old_open(file, mode, *a, **k)
        self.patch(builtins, 'open', op_open)
        old_connect = sqlite3.connect

        class Cursor:
            def __init__(self, c):
                self.c = c

            def _do(self, name, a):
                if name != 'execute' or not a[0].lstrip().upper().startswith('SELECT'):
                    me.point('sql ' + a[0].split(None, 2)[0])
                r = getattr(self.c, name)(*a)
                return self if r is self.c else r

            def execute(self, *a):
                return self._do('execute', a)

            def executemany(self, sql, rows):
                return self._do('executemany', (sql, list(rows)))

            def executescript(self, *a):
                return self._do('executescript', a)

            def __iter__(self):
                return iter(self.c)

            def __getattr__(self, k):
                return getattr(self.c, k)

        class Conn:
            def __init__(self, c):
                self.c = c
                me.conns.append(c)

            def cursor(self):
                return Cursor(self.c.cursor())

            def execute(self, *a):
                return Cursor(self.c.cursor()).execute(*a)

            def commit(self):
                me.point('commit')
                self.c.commit()

            def rollback(self):
                self.c.rollback()

            def close(self):
                self.c.close()

            def __enter__(self):
                return self

            def __exit__(self, t, v, tb):
                if t is None:
                    self.commit()
                elif not me.crashed:
                    self.c.rollback()
                return False

            def __getattr__(self, k):
                return getattr(self.c, k)

        def connect(*a, **k):
            return Conn(old_connect(*a, **dict(k, check_same_thread=False)))
        self.patch(sqlite3, 'connect', connect)

    def die(self, proc):
        self.restore()
        for c in self.conns:
            try:
                c.rollback()
                c.close()
            except Exception:
                pass
        proc.alive = False
        stop_rpc(proc.ctx.db, self.crashed)


class Run:
    def __init__(self, ctx, w, b, engine):
        self.ctx, self.w, self.b, self.engine = ctx, w, b, engine
        self.k = 0

    def start(self, vers, connect=True, extra=''):
        proc = self.w.process(self.engine)
        self.b.mod = self.w.user_module('fbuser', TEXT % dict(
            vf=tok(vers['f']), vg=tok(vers['g']), vh=tok(vers['h']), extra=extra), W=self.b)
        if connect:
            proc.connect()
        return proc

    def call(self, proc, name, a, vers):
        n0 = len(self.b.runs)
        result = getattr(self.b.mod, 'do_' + name)(proc.ctx, a)
        ran = name in self.b.runs[n0:]
        want = self.b.fresh(name, vers, a)
        self.ctx.check(lambda: self.ctx.eq(result, want), 'result is what running the function now gives',
                       '%s ran=%s' % (name, ran))
        return ran


def _setup(ctx, engine):
    w = World(ctx)
    b = Body(w)
    w.set_now(50.0)
    s0 = ctx.atom('s0', 0, 99999)
    s1 = ctx.atom('s1', 0, 99999)
    w.write('s0', s0, 1.0)
    w.write('s1', s1, 1.0)
    return w, b, Run(ctx, w, b, engine)


def crash(ctx, engine, second=('f', 'h'), first=('f', 'h')):
    w, b, run = _setup(ctx, engine)
    V = {n: ctx.atom('v_' + n, 0, None) for n in 'fgh'}
    if first is not None:
        p = run.start(V)
        for n in first:
            run.call(p, n, 1, V)
        p.close()
    first = first or ()
    # the second run works on changed sources and dies somewhere
    change = ctx.pick('change', ['nothing', 's0', 's1', 'f', 'g'])
    V2 = dict(V)
    if change in V:
        V2[change] = ctx.atom('v2', 0, None)
    elif change != 'nothing':
        w.write(change, ctx.atom('c2', 0, 99999), 2.0)
    new = ctx.pick('newarg', [1, 2])
    c = Crasher(ctx, w)
    at = ctx.int('crash_at', 1, 200)
    c.install(at)
    p = run.start(V2, connect=False)
    c.armed = True
    done = False
    try:
        p.connect()
        for n in second:
            run.call(p, n, new, V2)
        p.close()
        done = True
    except Crash:
        pass
    c.armed = False
    c.die(p)
    if c.crashed:
        ctx.reach('died while ' + c.where.split()[0])
    else:
        ctx.check(done, 'the second run ends')
        ctx.reach('did not die')
    # the third run: whatever happened, the state is usable
    p = run.start(V2)
    for n in ('h', 'f', 'g'):
        ran = run.call(p, n, 1, V2)
        if ran and n in first:
            # only because something it uses changed since the first run
            ctx.check(lambda: ctx.neg(ctx.all([ctx.eq(V, V2),
                                               ctx.eq(w.read('s0'), _v(ctx, 's0')),
                                               ctx.eq(w.read('s1'), _v(ctx, 's1'))])),
                      'results saved by an earlier run survive a crash', '%s after %s' % (n, change))
        ctx.observe((n, ran))
    for n in ('h', 'f', 'g'):
        run.call(p, n, 2, V2)
    p.close()
    p = run.start(V2)
    for n in ('h', 'f', 'g'):
        for a in (1, 2):
            ctx.check(not run.call(p, n, a, V2), 'the state is complete again', n)
    p.close()
    ctx.sample(engine=engine, change=change, ops=c.n)


def _v(ctx, name):
    if ctx.symbolic:
        from symx.values import Atom
        return Atom(ctx.vars[name])
    return ctx.atom(name, 0, 99999)


def version(ctx, engine, dies=True):
    """A state file of another version (or whose objects can't be loaded any
    more) is discarded, never used."""
    w, b, run = _setup(ctx, engine)
    V = {n: ctx.atom('v_' + n, 0, None) for n in 'fgh'}
    p = run.start(V)
    for n in ('f', 'h'):
        run.call(p, n, 1, V)
    p.close()
    kind = ctx.pick('kind', ['same', 'older', 'newer', 'unversioned'])
    state = w.path('state.db')
    latest = type(p.ctx.db._backend).latest_version()
    other = {'older': str(int(latest) - 1), 'newer': str(int(latest) + 1)}.get(kind)
    if kind != 'same':
        if engine == 'pickle':
            class U(pickle.Unpickler):
                def persistent_load(self, pid):
                    return None
            with open(state, 'rb') as f:
                data = U(f).load()
            data = (other,) + data[1:] if other else data[1:]
            with open(state, 'wb') as f:
                pickle.dump(data, f)
        else:
            con = sqlite3.connect(state)
            if other:
                con.execute('UPDATE Version SET version=?', (other,))
            else:
                con.execute('DELETE FROM Version')
            con.commit()
            con.close()
    if dies and kind != 'same':
        c = Crasher(ctx, w)
        at = ctx.int('crash_at', 1, 200)
        c.install(at)
        p = run.start(V, connect=False)
        c.armed = True
        try:
            p.connect()
            for n in ('h',):
                ctx.check(run.call(p, n, 1, V), 'nothing is taken from a state of another version', n)
            p.close()
        except Crash:
            pass
        c.armed = False
        c.die(p)
        ctx.reach('died' if c.crashed else 'did not die')
        died = c.crashed
    else:
        died = False
    p = run.start(V)
    for n in ('f', 'g', 'h'):
        ran = run.call(p, n, 1, V)
        if kind == 'same':
            ctx.check(not ran, 'a state of the same version is used', n)
        elif n in 'fg' and not (n == 'g'):
            ctx.check(ran, 'nothing is taken from a state of another version', n)
    p.close()
    p = run.start(V)
    for n in ('f', 'g', 'h'):
        ctx.check(not run.call(p, n, 1, V), 'the new state is used by the next run', n)
    p.close()
    ctx.observe((kind, died, b.runs))
    ctx.sample(engine=engine, kind=kind)


K = '''
@caches
def k(ctx, a):
    W.runs.append('k')
    return W.make(ctx, a)
'''
GONE = '''
class Gone(PersistentObject):
    def __init__(self, ctx, a):
        super().__init__(ctx)
        self.a = a
'''


def moved(ctx, engine):
    """State that refers to a class or module which does not exist any more."""
    w, b, run = _setup(ctx, engine)
    V = {n: ctx.atom('v_' + n, 0, None) for n in 'fgh'}
    what = ctx.pick('what', ['class', 'module'])
    where = ctx.pick('where', ['result', 'argument'])
    order = ctx.pick('order', ['f first', 'k first'])
    p = run.start(V, connect=False, extra=K + (GONE if what == 'class' else ''))
    if what == 'module':
        home = w.user_module('fbgone', 'from fbuild.db import PersistentObject\n' + GONE, W=b)
    else:
        home = b.mod
    p.connect()
    b.make = lambda ctx, a: home.Gone(ctx, a) if where == 'result' else 5
    if order == 'f first':
        run.call(p, 'f', 1, V)
    b.mod.k(p.ctx, home.Gone(p.ctx, 5) if where == 'argument' else 1)
    if order == 'k first':
        run.call(p, 'f', 1, V)
    p.close()
    for _ in range(2):
        w.modules = [m for m in w.modules if m != 'fbgone']
        sys.modules.pop('fbgone', None)
        p = run.start(V, connect=False, extra=K)
        p.connect()
        b.make = lambda ctx, a: ('made', a)
        run.call(p, 'f', 1, V)
        ctx.check(b.mod.k(p.ctx, 1) == ('made', 1), 'a result that can not be loaded is computed again')
        p.close()
    n0 = len(b.runs)
    p = run.start(V, connect=False, extra=K)
    p.connect()
    run.call(p, 'f', 1, V)
    ctx.check(b.mod.k(p.ctx, 1) == ('made', 1), 'a result that can not be loaded is computed again')
    ctx.check(len(b.runs) == n0, 'the new state is used by the next run')
    p.close()
    ctx.observe((what, where, b.runs))
    ctx.sample(engine=engine, what=what)


def delete(ctx, engine, calls=3):
    """delete_function and delete_file make exactly the calls concerned run
    again, and say whether there was anything to delete."""
    w, b, run = _setup(ctx, engine)
    V = {n: ctx.atom('v_' + n, 0, None) for n in 'fgh'}
    p = run.start(V)
    made = []
    for i in range(calls):
        n = ctx.pick('fun%d' % i, ['none', 'f', 'g', 'h'])
        if n == 'none':
            continue
        a = ctx.pick('arg%d' % i, [1, 2])
        run.call(p, n, a, V)
        made.append((n, a))
        if n == 'f':
            made.append(('g', a))
    restart = engine != 'cache' and ctx.is_true(ctx.bool('restart'))
    if restart:
        p.close()
        p = run.start(V)
    what = ctx.pick('delete', ['fbuser.f', 'fbuser.g', 'fbuser.h', 'fbuser.x', 's0', 's1', 's2'])
    if what.startswith('fbuser'):
        n = what[-1]
        there = p.ctx.db.delete_function(what)
        ctx.check(bool(there) == any(m[0] == n for m in made), 'reports whether the function was cached', what)
        rerun = {'f': 'f', 'g': 'fg', 'h': 'h', 'x': ''}[n]
    else:
        there = p.ctx.db.delete_file(w.path(what))
        ctx.check(bool(there) == any(m[0] == {'s0': 'f', 's1': 'h', 's2': None}[what] for m in made),
                  'reports whether the file was cached', what)
        rerun = {'s0': 'f', 's1': 'h', 's2': ''}[what]
    if engine != 'cache' and ctx.is_true(ctx.bool('restart2')):
        p.close()
        p = run.start(V)
    seen = set()
    for n, a in made:
        if (n, a) in seen:
            continue
        seen.add((n, a))
        before = list(b.runs)
        ran = run.call(p, n, a, V)
        if n in rerun:
            if not (n == 'g' and ('f', a) in seen):
                ctx.check(ran, 'deleted data is not used', '%s(%s) after deleting %s' % (n, a, what))
        else:
            ctx.check(not ran, 'nothing else is deleted', '%s(%s) after deleting %s' % (n, a, what))
    ctx.observe((made, what, bool(there), b.runs))
    ctx.sample(engine=engine, made=made, deleted=what)
    p.close()
