"""Virtual threads: fake `threading`, `queue`, `_thread` and `time` modules whose
threads run one at a time, in an order drawn from symbolic schedule variables.

A thread can be preempted at every synchronisation operation and, with `points`,
before every statement of the modules loaded through a Runtime (at most
`preempt` times per path); when a thread blocks, which of the others goes on is
a symbolic choice.  Deadlocks and loops that can never make progress are
reported as violations.  Exactly one OS thread runs at any time, so z3 is never
entered concurrently."""
import ast
import collections
import sys
import threading as _rt_threading
import time as _rt_time
import types

from . import core, fresh

_RealLock = _rt_threading.Lock
_real_local = _rt_threading.local
_MISSING = object()


class VKill(BaseException):
    pass


class VThreadInfo:
    def __init__(self, rt, name):
        self.rt = rt
        self.name = name
        self.baton = _RealLock()
        self.baton.acquire()
        self.blocked = None         # predicate or None
        self.spinning = False
        self.spins = 0
        self.done = False
        self.os = None
        self.obj = None
        self.cut = 0


class Runtime:
    def __init__(self, ctx, preempt=1, points=False, name='sched', maxpoints=400):
        self.ctx = ctx
        self.preempt = preempt
        self.points = points
        self.name = name
        self.threads = []
        self.dead = False
        self.fatal = None
        self.epoch = 0
        self.npoint = 0
        self.nchoice = 0
        self.maxpoints = maxpoints
        self.main = VThreadInfo(self, 'MainThread')
        self.main.obj = _MainThread(self.main)
        self.cur = self.main
        self.threads.append(self.main)
        self.by_os = {_rt_threading.get_ident(): self.main}
        self.loaded = []
        self.interrupted = False
        self.eager = None           # threads that go first whenever they can
        self.calm = False           # no choices: outside of what is studied
        self.clock = 0.0
        self.formats = ()           # modules that format numbers which may be symbolic
        ctx.cleanups.append(self.shutdown)
        self.modules = _modules(self)
        if preempt:
            # the positions of the preemptions, in increasing order
            self.left = preempt
        else:
            self.left = 0

    # -- loading ------------------------------------------------------------

    def load(self, *names):
        """Import fbuild modules with the fake threading modules in place."""
        fresh.install()
        saved = {}
        for n, m in self.modules.items():
            saved[n] = sys.modules.get(n, _MISSING)
            sys.modules[n] = m
        old = fresh.transform
        fresh.transform = self.transform if self.points or self.formats else None
        fresh.inject['__symx_point__'] = self.point
        fresh.inject['__symx_format__'] = _format
        try:
            return fresh.load(*names)
        finally:
            fresh.transform = old
            fresh.inject.pop('__symx_point__')
            fresh.inject.pop('__symx_format__')
            for n, m in saved.items():
                if m is _MISSING:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m

    POINTS_IN = ('fbuild.sched', 'fbuild.rpc', 'fbuild.console', 'fbuild.db.database')

    def transform(self, name, src, path):
        points = self.points and name in self.POINTS_IN
        formats = name in self.formats
        if not points and not formats:
            return None
        key = (path, points, formats)
        code = fresh._code.get(key)
        if code is None:
            tree = ast.parse(src)
            if points:
                tree = _Points().visit(tree)
            if formats:
                tree = _Formats().visit(tree)
            ast.fix_missing_locations(tree)
            code = fresh._code[key] = compile(tree, path, 'exec', dont_inherit=True)
        return code

    # -- scheduling -----------------------------------------------------------

    def runnable(self, t):
        return not t.done and (t.blocked is None or t.blocked())

    def _candidates(self, but=None):
        c = [t for t in self.threads if t is not but and self.runnable(t)]
        fair = [t for t in c if not t.spinning]
        return fair or c

    def _choose(self, cands):
        if self.eager is not None:
            for t in cands:
                if self.eager(t):
                    return t
        if len(cands) == 1 or self.calm:
            return cands[0]
        self.nchoice += 1
        return self.ctx.pick('%s_next%d' % (self.name, self.nchoice), cands)

    def _switch(self, to):
        me = self.cur
        if to is me:
            return
        self.cur = to
        to.baton.release()
        if me.done:
            return
        me.baton.acquire()
        self._woken(me)

    def _woken(self, me):
        if self.dead:
            if me is not self.main:
                raise VKill()
            return
        if me is self.main and self.fatal is not None:
            e, self.fatal = self.fatal, None
            self.dead = True
            raise e
        if me is self.main and self.interrupted:
            self.interrupted = False
            raise KeyboardInterrupt()

    def me(self):
        return self.by_os.get(_rt_threading.get_ident())

    def progress(self):
        """Something observable changed: spinning threads may go on."""
        self.epoch += 1
        for t in self.threads:
            t.spinning = False
            t.spins = 0

    def point(self):
        """A place where the current thread can be preempted."""
        if self.dead:
            self._check_dead()
            return
        me = self.cur
        if me is not self.me():
            return
        if me.spinning:
            c = self._candidates(but=me)
            c = [t for t in c if not t.spinning]
            if c:
                self._switch(self._choose(c))
            return
        if self.left > 0 and not self.calm:
            others = [t for t in self._candidates(but=me) if not t.spinning]
            if not others:
                return
            self.npoint += 1
            if self.npoint > self.maxpoints:
                return
            if self.ctx.is_true(self.ctx.bool('%s_preempt%d' % (self.name, self.npoint))):
                self.left -= 1
                self._switch(self._choose(others))

    def relax(self):
        """The current thread waits for something else for a while."""
        if self.dead:
            self._check_dead()
            return
        me = self.cur
        others = [t for t in self._candidates(but=me) if not t.spinning]
        if others and not self.calm:
            self._switch(self._choose([me] + others))

    def _check_dead(self):
        me = self.me()
        if me is not None and me is not self.main:
            raise VKill()

    def block(self, ready, forever=True):
        """Wait until ready() holds."""
        if self.dead:
            self._check_dead()
            return
        me = self.cur
        self.point()
        while not ready():
            me.blocked = ready
            c = self._candidates(but=me)
            if not c:
                if not forever:
                    me.blocked = None
                    return
                self._deadlock()
            self._switch(self._choose(c))
            me.blocked = None

    def spin(self):
        """The current thread found nothing to do and will look again."""
        if self.dead:
            self._check_dead()
            return
        me = self.cur
        me.spins += 1
        if me.spins > 2:
            me.spinning = True
            live = [t for t in self.threads if self.runnable(t)]
            if all(t.spinning for t in live) and all(t.spins > 12 for t in live):
                self._deadlock('does not terminate (no thread makes progress)')
            c = [t for t in live if not t.spinning] or \
                [t for t in live if t.spins <= 12 and t is not me]
            if c:
                self._switch(c[0] if all(t.spinning for t in c) else self._choose(c))

    def _deadlock(self, label='deadlock'):
        names = ','.join(t.name for t in self.threads if not t.done)
        self.ctx.fail(label, names)

    # -- thread life -------------------------------------------------------------

    def start(self, t, fn):
        self.threads.append(t)

        def boot():
            t.baton.acquire()
            try:
                if self.dead:
                    return
                fn()
            except VKill:
                pass
            except (core.PathEnd, core.PathViolation, core.Inconclusive, core.Hang) as e:
                if self.fatal is None:
                    self.fatal = e
            except BaseException as e:
                t.exc = e
            finally:
                self._finish(t)
        th = t.os = _rt_threading.Thread(target=boot, daemon=True)
        th.start()
        self.by_os[th.ident] = t
        self.progress()
        self.point()

    def _finish(self, t):
        t.done = True
        if self.dead:
            return
        try:
            if self.fatal is not None:
                # the main thread raises it
                self.main.blocked = None
                self._switch(self.main)
                return
            self.progress()
            c = self._candidates(but=t)
            if not c:
                self._deadlock()
            self._switch(self._choose(c))
        except BaseException as e:
            if self.fatal is None:
                self.fatal = e
            self.main.blocked = None
            self.cur = self.main
            self.main.baton.release()

    def shutdown(self):
        self.dead = True
        for t in self.threads:
            if t is not self.main and t.os is not None and t.os.is_alive():
                try:
                    t.baton.release()
                except RuntimeError:
                    pass
                t.os.join(1)
                if t.os.is_alive():
                    _kill_thread(t.os)
        self.threads[:] = []


def _kill_thread(th):
    try:
        import ctypes
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(th.ident), ctypes.py_object(VKill))
    except Exception:
        return
    th.join(5)


class _MainThread:
    daemon = False

    def __init__(self, info):
        self._info = info
        self.name = 'MainThread'
        self.ident = 1

    def is_alive(self):
        return True

    def getName(self):
        return self.name


class _Formats(ast.NodeTransformer):
    """Texts made of numbers (for messages)."""
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('__symx_format__', ast.Load()), [node.left, node.right], []), node)
        return node


def _format(text, args):
    a = args if isinstance(args, tuple) else (args,)
    if any(type(x).__name__ == 'SymInt' for x in a):
        text = text.replace('%d', '%s')
        a = tuple('<number>' if type(x).__name__ == 'SymInt' else x for x in a)
        return text % a
    return text % args


class _Points(ast.NodeTransformer):
    """Adds a scheduling point before every statement of every function."""
    def _block(self, body):
        out = []
        for i, s in enumerate(body):
            doc = i == 0 and isinstance(s, ast.Expr) and isinstance(getattr(s, 'value', None), ast.Constant)
            if not doc and not isinstance(s, (ast.Global, ast.Nonlocal)):
                out.append(ast.copy_location(ast.Expr(ast.Call(
                    ast.Name('__symx_point__', ast.Load()), [], [])), s))
            out.append(s)
        return out

    infun = 0

    def visit_FunctionDef(self, node):
        self.infun += 1
        self.generic_visit(node)
        self.infun -= 1
        node.body = self._block(node.body)
        return node

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.infun and not isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, f, self._block(b))
        return node


def _modules(rt):
    class ThreadError(RuntimeError):
        pass

    class Lock:
        def __init__(self):
            self._owner = None
            self._locked = False

        def acquire(self, blocking=True, timeout=-1):
            if rt.dead:
                rt._check_dead()
                return True
            if not blocking:
                rt.point()
                if self._locked:
                    rt.spin()
                    return False
            elif timeout is not None and timeout >= 0:
                rt.point()
                rt.block(lambda: not self._locked, forever=False)
                if self._locked:
                    return False
            else:
                rt.block(lambda: not self._locked)
            self._locked = True
            self._owner = rt.cur
            return True

        def release(self):
            if rt.dead:
                return
            if not self._locked:
                raise RuntimeError('release unlocked lock')
            self._locked = False
            self._owner = None
            rt.point()

        def locked(self):
            return self._locked

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *a):
            self.release()
        acquire_lock = acquire
        release_lock = release
        locked_lock = locked

    class RLock:
        def __init__(self):
            self._owner = None
            self._count = 0

        def acquire(self, blocking=True, timeout=-1):
            if rt.dead:
                rt._check_dead()
                return True
            me = rt.cur
            if self._owner is me:
                self._count += 1
                return True
            if not blocking:
                rt.point()
                if self._owner is not None:
                    rt.spin()
                    return False
            else:
                rt.block(lambda: self._owner is None)
            self._owner = me
            self._count = 1
            return True

        def release(self):
            if rt.dead:
                return
            if self._owner is not rt.cur:
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if not self._count:
                self._owner = None
                rt.point()

        def _save(self):
            n, self._count, self._owner = self._count, 0, None
            return n

        def _restore(self, n):
            self.acquire()
            self._count = n

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *a):
            self.release()

    class Condition:
        def __init__(self, lock=None):
            self._lock = lock if lock is not None else RLock()
            self._waiters = collections.deque()
            self.acquire = self._lock.acquire
            self.release = self._lock.release

        def __enter__(self):
            return self._lock.__enter__()

        def __exit__(self, *a):
            return self._lock.__exit__(*a)

        def wait(self, timeout=None):
            token = [False]
            self._waiters.append(token)
            n = self._lock._save() if hasattr(self._lock, '_save') else self._lock.release()
            rt.block(lambda: token[0], forever=timeout is None)
            if self._lock.__class__ is RLock:
                self._lock._restore(n)
            else:
                self._lock.acquire()
            return token[0]

        def wait_for(self, pred, timeout=None):
            r = pred()
            while not r:
                if not self.wait(timeout) and timeout is not None:
                    return pred()
                r = pred()
            return r

        def notify(self, n=1):
            while n and self._waiters:
                self._waiters.popleft()[0] = True
                n -= 1
            rt.progress()

        def notify_all(self):
            self.notify(len(self._waiters))
        notifyAll = notify_all

    class Semaphore:
        def __init__(self, value=1):
            self._value = value

        def acquire(self, blocking=True, timeout=None):
            if rt.dead:
                rt._check_dead()
                return True
            if not blocking:
                rt.point()
                if not self._value:
                    rt.spin()
                    return False
            else:
                rt.block(lambda: self._value > 0)
            self._value -= 1
            return True

        def release(self, n=1):
            self._value += n
            rt.progress()
            rt.point()

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *a):
            self.release()

    class Event:
        def __init__(self):
            self._flag = False

        def is_set(self):
            return self._flag
        isSet = is_set

        def set(self):
            self._flag = True
            if not rt.dead:
                rt.progress()
                rt.point()

        def clear(self):
            self._flag = False
            if not rt.dead:
                rt.point()

        def wait(self, timeout=None):
            rt.block(lambda: self._flag, forever=timeout is None)
            return self._flag

    class Thread:
        _count = 0

        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            Thread._count += 1
            self.name = name or 'Thread-%d' % Thread._count
            self.daemon = bool(daemon)
            self._target, self._args, self._kwargs = target, args, kwargs or {}
            self._vinfo = VThreadInfo(rt, self.name)
            self._vinfo.obj = self
            self._vstarted = False
            self.ident = None

        def start(self):
            if rt.dead:
                rt._check_dead()
                return
            if self._vstarted:
                raise RuntimeError('threads can only be started once')
            self._vstarted = True
            self.ident = id(self)
            rt.start(self._vinfo, self.run)

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def join(self, timeout=None):
            if rt.dead:
                return
            if not self._vstarted:
                raise RuntimeError('cannot join thread before it is started')
            if rt.cur is self._vinfo:
                raise RuntimeError('cannot join current thread')
            rt.block(lambda: self._vinfo.done, forever=timeout is None)

        def is_alive(self):
            return self._vstarted and not self._vinfo.done

        def getName(self):
            return self.name

        def setName(self, n):
            self.name = n

        def setDaemon(self, d):
            self.daemon = d

        def isDaemon(self):
            return self.daemon

    class Timer(Thread):
        def __init__(self, interval, function, args=None, kwargs=None):
            super().__init__()
            self.function = function
            self.args = args or []
            self.kwargs = kwargs or {}
            self.finished = Event()

        def cancel(self):
            self.finished.set()

        def run(self):
            rt.point()
            if not self.finished.is_set():
                self.function(*self.args, **self.kwargs)
            self.finished.set()

    def current_thread():
        t = rt.me()
        return (t or rt.main).obj

    threading = types.ModuleType('threading')
    threading.__dict__.update(
        Lock=Lock, RLock=RLock, Condition=Condition, Semaphore=Semaphore, BoundedSemaphore=Semaphore,
        Event=Event, Thread=Thread, Timer=Timer, current_thread=current_thread,
        currentThread=current_thread, main_thread=lambda: rt.main.obj,
        get_ident=lambda: id(rt.cur), local=_real_local, ThreadError=RuntimeError,
        active_count=lambda: sum(not t.done for t in rt.threads),
        enumerate=lambda: [t.obj for t in rt.threads if not t.done], TIMEOUT_MAX=1e9)

    def interrupt_main(*a):
        rt.interrupted = True
        rt.main.blocked = None
    _thread = types.ModuleType('_thread')
    _thread.__dict__.update(error=RuntimeError, allocate_lock=Lock, LockType=Lock, RLock=RLock,
                            get_ident=threading.get_ident, interrupt_main=interrupt_main)

    class Empty(Exception):
        pass

    class Full(Exception):
        pass

    class Queue:
        def __init__(self, maxsize=0):
            self.maxsize = maxsize
            self._init()
            self.unfinished_tasks = 0

        def _init(self):
            self.queue = collections.deque()

        def _take(self):
            return self.queue.popleft()

        def _put(self, x):
            self.queue.append(x)

        def qsize(self):
            return len(self.queue)

        def empty(self):
            return not self.queue

        def full(self):
            return 0 < self.maxsize <= len(self.queue)

        def put(self, item, block=True, timeout=None):
            if rt.dead:
                return
            if self.full():
                if not block:
                    raise Full
                rt.block(lambda: not self.full())
            self._put(item)
            self.unfinished_tasks += 1
            rt.progress()
            rt.point()

        def get(self, block=True, timeout=None):
            if rt.dead:
                rt._check_dead()
                raise Empty
            if not block:
                rt.point()
                if not self.queue:
                    rt.spin()
                    raise Empty
            else:
                rt.block(lambda: bool(self.queue), forever=timeout is None)
                if not self.queue:
                    raise Empty
            item = self._take()
            rt.progress()
            return item

        def put_nowait(self, item):
            self.put(item, block=False)

        def get_nowait(self):
            return self.get(block=False)

        def task_done(self):
            if rt.dead:
                return
            if self.unfinished_tasks <= 0:
                raise ValueError('task_done() called too many times')
            self.unfinished_tasks -= 1
            rt.progress()
            rt.point()

        def join(self):
            rt.block(lambda: self.unfinished_tasks == 0)

    class LifoQueue(Queue):
        def _take(self):
            return self.queue.pop()

    class PriorityQueue(Queue):
        def _take(self):
            m = min(self.queue)
            self.queue.remove(m)
            return m

    queue = types.ModuleType('queue')
    queue.__dict__.update(Queue=Queue, LifoQueue=LifoQueue, PriorityQueue=PriorityQueue,
                          SimpleQueue=Queue, Empty=Empty, Full=Full)

    def sleep(s):
        rt.spin()
        rt.point()

    time = types.ModuleType('time')
    time.__dict__.update({k: v for k, v in _rt_time.__dict__.items() if not k.startswith('__')})
    time.sleep = sleep
    return {'threading': threading, '_thread': _thread, 'queue': queue, 'time': time}
