"""Commands that are executed (virtual threads, modelled processes)."""
import errno
import signal
import types

from symx import fresh
from symx.vthread import Runtime


class Proxy:
    def __init__(self, of, **over):
        self.__dict__['_of'] = of
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self._of, k)


class Processes:
    """The processes of a machine; they end when they want to, or are killed."""

    def __init__(self, rt, ctx):
        self.rt = rt
        self.all = []
        self.plan = {}
        processes = self
        import os

        class Popen:
            def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                         close_fds=True, shell=False, cwd=None, env=None, **kw):
                plan = processes.plan[args if isinstance(args, str) else tuple(args)]
                self.model = plan
                plan.given = dict(stdin=stdin, stdout=stdout, stderr=stderr, shell=shell, cwd=cwd, env=env, args=args)
                plan.starts += 1
                self.returncode = None
                if plan.fails:
                    raise OSError(errno.ENOENT, 'cannot start')
                # a process is its own group if the function called before the start says so
                plan.group = False
                processes.starting = plan
                if preexec_fn:
                    preexec_fn()
                processes.starting = None
                if kw.get('start_new_session'):
                    plan.group = True
                self.pid = plan.pid = 100 + len(processes.all)
                processes.all.append(plan)
                self.args = args
                plan.alive = True
                rt.progress()
                rt.point()

            def _end(self):
                m = self.model
                if m.alive and m.interrupt:
                    m.interrupt = False
                    raise KeyboardInterrupt
                if m.until:
                    rt.block(lambda: not m.alive or m.until())
                elif m.hangs:
                    rt.block(lambda: not m.alive)
                else:
                    rt.relax()
                if m.alive:
                    m.alive = False
                    m.exited = m.code
                    m.timed = m.killed[:]
                if self.returncode is None:
                    self.returncode = m.exited

            def communicate(self, input=None, timeout=None):
                self.model.input = input
                self._end()
                g = self.model.given
                # what is not a pipe cannot be read
                out = self.model.stdout if g['stdout'] == PIPE else None
                err = self.model.stderr if g['stderr'] == PIPE else None
                self.wait()
                return out, err

            def wait(self, timeout=None):
                if self.returncode is None:
                    self._end()
                return self.returncode

            def poll(self):
                if self.returncode is None and not self.model.alive:
                    self.returncode = self.model.exited
                return self.returncode

            def send_signal(self, sig):
                processes.kill(self.pid, sig)

            def kill(self):
                self.send_signal(signal.SIGKILL)

            def terminate(self):
                self.send_signal(signal.SIGTERM)

        PIPE = -1
        m = types.ModuleType('subprocess')
        m.__dict__.update(Popen=Popen, PIPE=PIPE, STDOUT=-2, DEVNULL=-3, CalledProcessError=type('CalledProcessError', (Exception,), {}),
                          SubprocessError=type('SubprocessError', (Exception,), {}), TimeoutExpired=type('TimeoutExpired', (Exception,), {}),
                          call=None, check_call=None)
        self.module = m
        self.starting = None
        self.os = Proxy(os, setsid=self.setsid, setpgrp=self.setsid, setpgid=lambda *a: self.setsid(), killpg=self.killpg, kill=self.kill, getpgid=self.getpgid,
                        waitpid=None, fork=None, system=None)

    def setsid(self):
        assert self.starting, 'the build itself would leave its session'
        self.starting.group = True

    def _find(self, pid):
        for p in self.all:
            if p.pid == pid and p.alive:
                return p
        raise ProcessLookupError(errno.ESRCH, 'no such process')

    def getpgid(self, pid):
        return pid if self._find(pid).group else 1

    def killpg(self, pgid, sig):
        assert pgid != 1, 'the build itself would be killed'
        self._kill(pgid, sig, True)

    def kill(self, pid, sig):
        self._kill(pid, sig, False)

    def _kill(self, pid, sig, group):
        p = self._find(pid)
        if sig == 0:
            return
        p.killed.append((int(sig), group))
        p.alive = False
        p.exited = -int(sig)
        self.rt.progress()


class Plan:
    def __init__(self, **kw):
        self.starts = 0
        self.fails = self.hangs = self.interrupt = False
        self.until = None
        self.alive = False
        self.exited = None
        self.killed = []
        self.timed = None
        self.group = False
        self.pid = None
        self.input = None
        self.given = None
        self.code = 0
        self.stdout = self.stderr = b''
        self.__dict__.update(kw)


class Log:
    import contextlib

    def __init__(self):
        self.lines = []

    @contextlib.contextmanager
    def log_from_thread(self):
        yield

    def write(self, msg, **kw):
        pass

    def log(self, msg, color=None, verbose=0):
        self.lines.append((str(msg), verbose))

    def check(self, msg, result=None, color=None, verbose=0):
        self.lines.append((str(msg) if result is None else str(msg) + ': ' + str(result), verbose))


def setup(ctx, threads, preempt, points, environ):
    fresh.forget()
    rt = Runtime(ctx, preempt=preempt, points=points)
    rt.POINTS_IN = rt.POINTS_IN + ('fbuild.context',)
    rt.formats = ('fbuild.context',)
    ps = Processes(rt, ctx)
    rt.modules['subprocess'] = ps.module
    C, F, K = rt.load('fbuild.context', 'fbuild', 'fbuild.subprocess.killableprocess')
    K.os = ps.os
    C.os = Proxy(C.os, environ=environ)
    C.fbuild.builders.platform.runtime_env_libpath = lambda ctx: 'LIBS'
    c = C.Context.__new__(C.Context)
    c.logger = Log()
    left, rt.left = rt.left, 0
    c.scheduler = C.fbuild.sched.Scheduler(threads, logger=c.logger)
    rt.left = left
    return rt, ps, c, F


def execute(ctx, where='main', threads=1, preempt=0, points=False, timeout=True, interrupt=True, outputs=True, env=False, shell=True):
    """One command: its result, whatever happens to it."""
    environ = {'PATH': 'p'}
    if env:
        for k in ('LIBS', 'A'):
            if ctx.is_true(ctx.bool('environ_' + k)):
                environ[k] = 'e' + k
    rt, ps, c, F = setup(ctx, threads, preempt, points, environ)
    cmd = ctx.pick('cmd', ['tool -x', ('tool', 'a b')]) if shell else ('tool', '-x')
    cmd = cmd if isinstance(cmd, str) else list(cmd)
    plan = ps.plan[cmd if isinstance(cmd, str) else tuple(cmd)] = Plan()
    plan.fails = ctx.is_true(ctx.bool('cannot_start'))
    plan.code = ctx.int('code', -15, 255)
    if outputs:
        plan.stdout = ctx.pick('stdout', [b'', b'out\n', b'\xff'])
        plan.stderr = ctx.pick('stderr', [b'', b'err\n'])
        piped = ctx.pick('piped', ['default', 'no stdout', 'no stderr'])
    else:
        piped = 'default'
    kw = {}
    if piped == 'no stdout':
        kw['stdout'] = None
    if piped == 'no stderr':
        kw['stderr'] = ps.module.STDOUT
    given = ctx.pick('stdin', ['none', 'input', 'file']) if outputs else 'none'
    if given == 'input':
        kw['input'] = b'given'
    elif given == 'file':
        kw['stdin'] = 7
    if timeout and ctx.is_true(ctx.bool('timeout')):
        kw['timeout'] = 5
        plan.hangs = ctx.is_true(ctx.bool('hangs'))
    if interrupt and where == 'main':
        plan.interrupt = ctx.is_true(ctx.bool('interrupted'))
    ignore = ctx.is_true(ctx.bool('ignore_error'))
    if ignore:
        kw['ignore_error'] = True
    if shell:
        kw['shell'] = isinstance(cmd, str)
        kw['cwd'] = '/somewhere'
    verbose = {}
    if outputs:
        how = ctx.pick('quieter', ['', 'quieter', 'each'])
        if how == 'quieter':
            kw['quieter'] = 1
            verbose = dict(stdout=1, stderr=1)
        elif how == 'each':
            kw.update(stdout_quieter=2, stderr_quieter=3)
            verbose = dict(stdout=2, stderr=3)
    wanted = dict(environ)
    mine = None
    if env:
        if ctx.is_true(ctx.bool('env')):
            mine = {}
            for k in ('LIBS', 'A', 'B'):
                if ctx.is_true(ctx.bool('env_' + k)):
                    mine[k] = 'm' + k
            kw['env'] = mine
            wanted.update(mine)
        libs = ctx.pick('libpaths', [None, [], ['l1'], ['l1', 'l2']])
        if libs is not None:
            kw['runtime_libpaths'] = libs
        if libs:
            wanted['LIBS'] = (wanted['LIBS'] + ':' if 'LIBS' in wanted else '') + ':'.join(libs)
    before = (dict(environ), dict(mine or {}))
    what = (cmd, sorted(kw), piped, plan.stdout, plan.stderr)

    def call(_=None):
        try:
            return 'returned', c.execute(cmd, 'msg', 'to', **kw)
        except Exception as e:
            return 'raised', e
        except KeyboardInterrupt as e:
            return 'interrupted', e
    interrupted = plan.interrupt
    if where == 'main':
        how, r = call()
    else:
        how, r = c.scheduler.map(call, [1])[0]
    fired = list(plan.killed)
    code = plan.exited
    ctx.check(plan.starts == 1, 'the command is run once', what)
    out = plan.stdout if kw.get('stdout', -1) == -1 else None
    err = plan.stderr if kw.get('stderr', -1) == -1 else None
    if plan.fails:
        ctx.check(how == 'raised' and type(r) is FileNotFoundError, 'a command that cannot be started raises OSError', (how, type(r)))
        ctx.reach('not started')
    else:
        ctx.check(not plan.alive, 'no process is left', what)
        ctx.check(all(g for _, g in fired), 'a process is killed together with its children', what)
        if interrupted and plan.timed is None and (not fired or fired[0][0] == signal.SIGINT):
            ctx.check(fired == [(signal.SIGINT, True)], 'an interrupted command is interrupted too', repr(fired))
            ctx.check(how == 'interrupted', 'an interrupt ends the build', (how, type(r)))
            ctx.reach('interrupted')
        elif interrupted:
            # timed out before
            ctx.check(how == 'interrupted' or type(r) is F.ExecutionTimedOut, 'an interrupt ends the build', (how, type(r)))
        elif fired:
            ctx.check('timeout' in kw and fired == [(signal.SIGKILL, True)], 'only commands that take too long are killed', repr(fired))
            ctx.check(how == 'raised' and type(r) is F.ExecutionTimedOut, 'a command that takes too long raises ExecutionTimedOut', (how, type(r)))
            ctx.check(r.cmd == cmd and r.stdout == out and r.stderr == err, 'the exception tells what was run', sorted(vars(r)))
            ctx.check(ctx.eq(r.returncode, -signal.SIGKILL), 'the exception tells what was run', sorted(vars(r)))
            ctx.reach('timed out')
        elif how == 'raised' and type(r) is F.ExecutionTimedOut:
            # (the time was over when the process had just ended)
            ctx.check('timeout' in kw, 'only commands that take too long are killed')
            ctx.reach('timed out at the end')
        else:
            ctx.check(not plan.hangs, 'a command that takes too long raises ExecutionTimedOut')
            if ctx.is_true(ctx.eq(code, -int(signal.SIGINT))):
                ctx.check(how == 'interrupted', 'an interrupt ends the build', (how, type(r)))
                ctx.reach('interrupted itself')
            elif ctx.is_true(ctx.eq(code, 0)) or ignore:
                ctx.check(how == 'returned', 'a command that succeeds returns what it printed', (how, type(r)))
                ctx.check(tuple(r) == (out, err), 'a command that succeeds returns what it printed', (how, type(r)))
                ctx.reach('returned')
            else:
                ctx.check(how == 'raised' and type(r) is F.ExecutionError, 'a command that fails raises ExecutionError', (how, type(r)))
                ctx.check(r.cmd == cmd and r.stdout == out and r.stderr == err, 'the exception tells what was run', sorted(vars(r)))
                ctx.check(ctx.eq(r.returncode, code), 'the exception tells what was run', sorted(vars(r)))
                ctx.reach('failed')
        if how != 'interrupted':
            for name, text in (('stdout', out), ('stderr', err)):
                if text:
                    shown = {b'out\n': 'out', b'err\n': 'err', b'\xff': "b'\\xff'"}[text]
                    ctx.check((shown, verbose.get(name, 0)) in c.logger.lines, 'what the command printed is logged', (shown, c.logger.lines))
            ctx.check(plan.input == kw.get('input'), 'the command gets its input', what)
        g = plan.given
        ctx.check(g['args'] == cmd, 'the command is run as given', what)
        ctx.check(g['env'] == wanted, 'the environment is that of the build, with what was given', (g['env'], wanted, before))
        ctx.check(g['stdin'] == {'none': None, 'input': -1, 'file': 7}[given], 'the command gets its input', what)
        if shell:
            ctx.check(g['shell'] == isinstance(cmd, str) and g['cwd'] == '/somewhere', 'other arguments are passed on', what)
    ctx.check((environ, mine or {}) == before, "the caller's environment stays as it is", (environ, mine, before))
    # nothing happens any more
    ctx.check(list(c.scheduler.map(lambda x: x + 1, [1, 2])) == [2, 3], 'the scheduler goes on')
    c.scheduler.shutdown()
    for t in rt.threads:
        if t is not rt.main and not t.done and hasattr(t.obj, 'finished'):
            t.obj.join()
    ctx.check(plan.killed == fired, 'nobody is killed afterwards', repr(plan.killed))
    ctx.check(not any(getattr(t, 'exc', None) for t in rt.threads), 'no thread died', repr([getattr(t, 'exc', None) for t in rt.threads]))
    ctx.observe((how, fired, sorted(kw)))
    ctx.sample(how=how, kw=sorted(kw))


def together(ctx, threads=2, n=2, preempt=1, points=False, nested=False):
    """Commands of several tasks run at the same time, while only one task does."""
    rt, ps, c, F = setup(ctx, threads, preempt, points, {})
    inside = []
    want = min(threads, n)
    for i in range(n):
        p = ps.plan['t%d' % i, ] = Plan(stdout=b'%d' % i)
        p.code = ctx.int('code%d' % i, 0, 3)

    def enter(i):
        ctx.check(not inside, 'only one task runs at a time', repr((i, inside)))
        inside.append(i)

    def leave(i):
        inside.remove(i)

    def waits():
        # the last that can run at the same time was started
        return len(ps.all) >= want
    for p in ps.plan.values():
        p.until = waits

    def task(i):
        enter(i)
        rt.point()
        leave(i)
        try:
            if nested:
                r = c.scheduler.map(lambda i: c.execute(['t%d' % i]), [i])[0]
            else:
                r = c.execute(['t%d' % i])
        finally:
            enter(i)
            rt.point()
            leave(i)
        return r
    failed = [i for i in range(n) if ctx.is_true(ps.plan['t%d' % i, ].code != 0)]
    try:
        r = c.scheduler.map(task, range(n))
    except F.ExecutionError as e:
        ctx.check(e.cmd in [['t%d' % i] for i in failed], 'a command that fails raises ExecutionError', repr(e.cmd))
        ctx.reach('failed')
    else:
        ctx.check(not failed, 'a command that fails raises ExecutionError', repr(failed))
        ctx.check([x[0] for x in r] == [b'%d' % i for i in range(n)], 'a command that succeeds returns what it printed', r)
        ctx.reach('returned')
    ctx.check(not any(p.alive for p in ps.all), 'no process is left')
    ctx.check(not any(p.killed for p in ps.all), 'only commands that take too long are killed')
    ctx.check(all(p.starts <= 1 for p in ps.all), 'the command is run once')
    c.scheduler.shutdown()
    ctx.check(not any(getattr(t, 'exc', None) for t in rt.threads), 'no thread died', repr([getattr(t, 'exc', None) for t in rt.threads]))
    ctx.observe((failed, len(ps.all)))
    ctx.sample(n=n)
