"""The environment of a simulated build: files with symbolic contents and
modification times, a symbolic clock, user code with symbolic source text, and
processes that start with fresh fbuild modules.

In concrete mode (replay) everything is real except the clock."""
import hashlib
import importlib.abc
import importlib.machinery
import io
import linecache
import os
import re
import shutil
import sys
import threading
import time
import types

from . import core, fresh

_real = types.SimpleNamespace(
    stat=os.stat, lstat=os.lstat, time=time.time, md5=hashlib.md5,
    utime=os.utime, fstat=os.fstat)
EPOCH = 1600000000.0

_TOK = re.compile(rb'SYM#(\d{5})#')


def tok(atom):
    """Text standing for a symbolic (or concrete) value in file contents."""
    c = core.CURRENT
    if not c.symbolic:
        return 'SYM#%05d#' % (int(atom) % 100000)
    reg = c.canon.setdefault('tokens', [])
    for i, a in enumerate(reg):
        if a is atom:
            break
    else:
        reg.append(atom)
        i = len(reg) - 1
    return 'SYM#%05d#' % i


def untok(text):
    """The value whose token occurs in text."""
    c = core.CURRENT
    if isinstance(text, str):
        text = text.encode()
    m = _TOK.search(text)
    if m is None:
        return None
    i = int(m.group(1))
    if not c.symbolic:
        return i
    return c.canon['tokens'][i]


# ---------------------------------------------------------------------------
# digests of data containing tokens: equal iff the data are equal

class SymHash:
    block_size = 64

    def __init__(self, name, data=b'', **kw):
        self.name = name
        self._buf = bytes(data)
        self.digest_size = getattr(hashlib, 'new')(name).digest_size if name else 16

    def update(self, data):
        self._buf += bytes(data)

    def copy(self):
        return SymHash(self.name, self._buf)

    def hexdigest(self):
        real = hashlib.new(self.name)
        c = core.CURRENT
        buf = self._buf
        if c is not None and c.symbolic:
            ids = [int(x) for x in _TOK.findall(buf)]
            if ids:
                reg = c.canon['tokens']
                atoms = [reg[i] for i in ids]
                skel = _TOK.sub(b'SYM##', buf)
                table = c.canon.setdefault(('digests', self.name, skel), [])
                import z3
                for i, old in enumerate(table):
                    cond = [x.expr == y.expr for x, y in zip(old, atoms) if x is not y]
                    if not cond or c.fork(z3.And(cond)):
                        break
                else:
                    table.append(atoms)
                    i = len(table) - 1
                real.update(b'canonical %d ' % i)
                buf = skel
        real.update(buf)
        return real.hexdigest()

    def digest(self):
        return bytes.fromhex(self.hexdigest())


def _mk(name):
    def h(data=b'', **kw):
        return SymHash(name, data)
    h.__name__ = 'openssl_' + name
    return h


_orig_new = hashlib.new


class Stat:
    """os.stat_result with an overlaid modification time."""
    def __init__(self, st, mtime):
        object.__setattr__(self, '_st', st)
        self.st_mtime = mtime

    @property
    def st_mtime_ns(self):
        m = self.st_mtime
        r = m * 1000000000
        if core.CURRENT.symbolic:
            import z3
            from .values import SymInt, SymReal
            if isinstance(r, SymReal):
                return SymInt.make(z3.ToInt(r.expr))
        return int(r)

    def __getattr__(self, k):
        return getattr(self._st, k)

    def __getitem__(self, i):
        if i == 8:
            return int(self.st_mtime)
        return self._st[i]

    def __iter__(self):
        return iter([self[i] for i in range(10)])

    def __len__(self):
        return 10


class World:
    def __init__(self, ctx, name='w'):
        self.ctx = ctx
        base = os.environ['SYMX_SCRATCH']
        self.dir = os.path.join(base, name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.mtimes = {}
        self.now = 0.0
        self.base_mtime = 0.25
        self.modules = []
        self.files = {}         # name -> content value or None
        self.runs = []
        self.procs = 0
        self.lazy = {}
        self._finder = _LazyFinder(self)
        sys.meta_path.append(self._finder)
        self._patch()
        ctx.cleanups.append(self.close)

    # -- patches ---------------------------------------------------------------

    def _patch(self):
        prefix = self.dir + os.sep

        def stat(path, *a, **k):
            st = _real.stat(path, *a, **k)
            return self._overlay(path, st)

        def lstat(path, *a, **k):
            st = _real.lstat(path, *a, **k)
            return self._overlay(path, st)

        def now():
            return EPOCH + self.now if not self.ctx.symbolic else self.now

        time.time = now
        if self.ctx.symbolic:
            os.stat = stat
            os.lstat = lstat
            for n in ('md5', 'sha1', 'sha256', 'sha512', 'sha224', 'sha384', 'blake2b', 'blake2s'):
                self._saved = getattr(self, '_saved', {})
                self._saved[n] = getattr(hashlib, n)
                setattr(hashlib, n, _mk(n))

    def _overlay(self, path, st):
        try:
            p = os.fspath(path)
        except TypeError:
            return st
        if isinstance(p, bytes):
            p = p.decode()
        # (the current directory is the scratch directory)
        p = os.path.join(os.environ['SYMX_SCRATCH'], p)
        if p.startswith(self.dir + os.sep) and not p.endswith('.py'):
            return Stat(st, self.mtimes.get(p, self.base_mtime))
        return st

    def close(self):
        time.time = _real.time
        os.stat = _real.stat
        os.lstat = _real.lstat
        for n, f in getattr(self, '_saved', {}).items():
            setattr(hashlib, n, f)
        for p in list(getattr(self, 'open_dbs', [])):
            try:
                p.kill()
            except Exception:
                pass
        for m in self.modules:
            sys.modules.pop(m, None)
        if self._finder in sys.meta_path:
            sys.meta_path.remove(self._finder)
        linecache.clearcache()
        os.chdir(os.environ['SYMX_SCRATCH'])
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- files -----------------------------------------------------------------

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, content, mtime=None, filler=0, tail=0):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            if filler:
                f.write('x' * filler)
            f.write('content ' + (tok(content) if content is not None else '') + '\n')
            if tail:
                f.write('y' * tail)
        self.touch(name, mtime)

    def touch(self, name, mtime=None):
        p = self.path(name)
        m = self.base_mtime if mtime is None else mtime
        self.mtimes[p] = m
        if not self.ctx.symbolic:
            ns = int((EPOCH + m) * 4) * 250000000
            _real.utime(p, ns=(ns, ns))

    def remove(self, name):
        p = self.path(name)
        try:
            os.remove(p)
        except FileNotFoundError:
            pass

    def exists(self, name):
        return os.path.lexists(self.path(name))

    def read(self, name):
        """The content value of a file, or None if it does not exist."""
        try:
            with open(self.path(name) if not os.path.isabs(name) else name) as f:
                return untok(f.read())
        except FileNotFoundError:
            return None

    # -- clock -----------------------------------------------------------------

    def set_now(self, now):
        self.now = now

    # -- processes ---------------------------------------------------------------

    def process(self, engine, state='state.db', runtime=None):
        p = Process(self, engine, state, runtime)
        self.open_dbs = getattr(self, 'open_dbs', [])
        self.open_dbs.append(p)
        return p

    def lazy_module(self, name, text, **globals):
        """User code that is only imported when something imports it."""
        with open(self.path(name + '.py'), 'w') as f:
            f.write(text)
        self.lazy[name] = (text, globals)
        sys.modules.pop(name, None)
        if name not in self.modules:
            self.modules.append(name)
        linecache.clearcache()

    def user_module(self, name, text, **globals):
        """Write and import user code (fresh for every process)."""
        fn = self.path(name + '.py')
        with open(fn, 'w') as f:
            f.write(text)
        linecache.clearcache()
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__dict__.update(globals)
        sys.modules[name] = m
        if name not in self.modules:
            self.modules.append(name)
        exec(compile(text, fn, 'exec', dont_inherit=True), m.__dict__)
        return m


class _LazyFinder(importlib.abc.MetaPathFinder):
    def __init__(self, world):
        self.world = world

    def find_spec(self, name, path, target=None):
        if name in self.world.lazy:
            fn = self.world.path(name + '.py')
            spec = importlib.machinery.ModuleSpec(name, self, origin=fn)
            spec.has_location = True
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        text, globals = self.world.lazy[m.__name__]
        m.__dict__.update(globals)
        exec(compile(text, m.__file__, 'exec', dont_inherit=True), m.__dict__)


class Logger:
    def __getattr__(self, k):
        return lambda *a, **kw: None


class InlineRPC:
    """Runs calls to the database thread in the caller (symbolic mode only:
    z3 must not be entered from two threads; C10 covers the real one)."""
    daemon = True

    def __init__(self, handler):
        self._handler = handler
        self._running = False

    def start(self):
        self._running = True

    def call(self, *args, **kwargs):
        if not self._running:
            raise sys.modules['fbuild.rpc'].RPCNotRunning()
        return self._handler(*args, **kwargs)

    def join(self, *args, **kwargs):
        self._running = False

    def is_alive(self):
        return self._running


def stop_rpc(db, died=False):
    """End the database thread, which may have died (a dead thread does not
    answer)."""
    def stop():
        try:
            db.shutdown()
        except BaseException:
            pass
    rpc = db._rpc
    if not isinstance(rpc, threading.Thread):
        stop()
        return
    if died:
        threading.Thread.join(rpc, 5)
    t = threading.Thread(target=stop, daemon=True)
    t.start()
    t.join(5)


class Process:
    """One run of the build: fresh fbuild modules and a database connection."""

    def __init__(self, world, engine, state, runtime=None):
        self.world = world
        fresh.forget(*world.modules)
        linecache.clearcache()
        if runtime is not None:
            # virtual threads, with the real database thread
            self.context_mod, self.db_mod, _ = runtime.load('fbuild.context', 'fbuild.db', 'fbuild.sched')
        else:
            if world.ctx.symbolic:
                rpc, = fresh.load('fbuild.rpc')
                rpc.RPC = InlineRPC
            self.context_mod, self.db_mod = fresh.load('fbuild.context', 'fbuild.db')
        self.fbuild = sys.modules['fbuild']
        self.engine = engine
        self.state = state
        Context = self.context_mod.Context

        class HarnessContext(Context):
            def __init__(self):
                pass

        self.ctx = HarnessContext()
        self.ctx.logger = Logger()
        self.database_mod = sys.modules['fbuild.db.database']
        self.ctx.db = self.database_mod.Database(self.ctx, engine=engine)
        self.alive = True

    def connect(self):
        self.ctx.db.connect(self.world.path(self.state))

    def close(self):
        """A clean end: save the state and stop."""
        self.ctx.db.close()
        self.ctx.db.shutdown()
        self.alive = False

    def kill(self):
        """The process dies without saving."""
        if not self.alive:
            return
        self.alive = False
        db = self.ctx.db
        conn = getattr(db._backend, 'conn', None)
        if conn is not None:
            # closing a connection without commit rolls back, as a crash does
            def drop():
                try:
                    conn.rollback()
                    conn.close()
                except Exception:
                    pass
            try:
                db._rpc.call(drop)
            except BaseException:
                pass
        try:
            db.shutdown()
        except BaseException:
            pass
