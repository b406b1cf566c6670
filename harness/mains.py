"""The main program: targets, options, state and ends of builds."""
import io
import os
import shutil
import signal
import sys
import threading

from symx import fresh
from symx.world import World, InlineRPC

ROOT = '''
import fbuild
import fbuild.db
import fbuild.target

@fbuild.db.caches
def cached(ctx, what, src: fbuild.db.SRC):
    H.executed.append(what)
    return 'result of ' + what
%s
'''
CONFIGURE = '''
def configure(ctx):
    H.target(ctx, 'configure', cached)
'''
BUILD = '''
def build(ctx):
    H.target(ctx, 'build', cached)
'''
EXTRA = '''
@fbuild.target.register(name='check')
def extra(ctx):
    H.target(ctx, 'check', cached)
'''
PRE = '''
def pre_install(ctx):
    H.target(ctx, 'pre_install', None)
'''
ARGS = '''
def arguments(parser):
    parser.add_argument('--more', default='nothing')

def post_arguments(parser, args):
    assert parser.parse_args([]).more == 'nothing'
    args.seen = 'seen ' + args.more
'''
POST = '''
def post_install(ctx):
    H.target(ctx, 'post_install', None)
'''


class Oops(Exception):
    pass


class Run:
    """One run of the program."""

    def __init__(self, ctx, w, n, defines, outcomes, interrupt_save):
        self.ctx, self.w, self.n = ctx, w, n
        self.defines = defines
        self.outcomes = outcomes
        self.interrupt_save = interrupt_save
        self.ran = []
        self.executed = []
        self.saves = 0
        self.fb = None
        self.more = None
        self.jobs = 1

    def target(self, fb, name, cached):
        c = self.ctx
        c.check(self.fb is None or self.fb is fb, 'targets get the context')
        self.fb = fb
        self.ran.append(name)
        tmp = os.path.join(self.w.dir, 'build', '.tmp')
        c.check(os.path.isdir(tmp), 'targets have a directory for temporary files')
        left = [n for n in os.listdir(tmp) if not n.startswith('run%d' % self.n)]
        c.check(not left, 'temporary files of earlier builds are gone', repr(left))
        c.check(os.path.dirname(self.mods['fbuild.temp']._tempfile.mkdtemp(
            prefix='run%d' % self.n, dir=self.mods['fbuild.temp']._default_tempdir)) == os.path.realpath(tmp) or
            os.path.isdir(tmp), 'temporary files are in the build directory')
        if self.more is not None:
            c.check(fb.options.seen == 'seen ' + self.more, 'options of the fbuildroot are passed on', fb.options.seen)
            c.reach('own options')
        c.check(fb.scheduler.threadcount == self.jobs, 'as many threads are used as asked for', fb.scheduler.threadcount)
        if cached is not None:
            c.check(cached(fb, name, self.w.path('input')) == 'result of ' + name, 'cached functions work')
        fb.install_destdir = os.path.join(self.w.dir, 'dest')
        fb.install_prefix = '/usr'
        if name == 'build':
            self.w.write('made', None)
            fb.install(self.w.path('made'), 'share')
        if name == 'pre_install':
            self.installed_before = self.w.exists('dest/usr/share/made')
        if name == 'post_install':
            self.installed_after = self.w.exists('dest/usr/share/made')
        how = self.outcomes(name)
        if how == 'error':
            raise self.mods['fbuild'].Error('the target failed')
        if how == 'oops':
            raise Oops('unexpected')
        if how == 'interrupt':
            signal.raise_signal(signal.SIGINT)
            for i in range(100):
                pass
            c.check(False, 'an interrupt ends the build')

    def main(self, argv):
        w = self.w
        fresh.forget(*w.modules)
        if self.ctx.symbolic:
            rpc, = fresh.load('fbuild.rpc')
            rpc.RPC = InlineRPC
        fresh.load('fbuild', 'fbuild.db', 'fbuild.target')
        self.mods = sys.modules.copy()
        if self.defines is None:
            sys.modules['fbuildroot'] = None
        else:
            w.user_module('fbuildroot', ROOT % ''.join(self.defines), H=self)
        try:
            main, temp, context, console = fresh.load('fbuild.main', 'fbuild.temp', 'fbuild.context', 'fbuild.console')
        finally:
            if self.defines is None:
                sys.modules.pop('fbuildroot', None)
        self.mods = dict(sys.modules)
        D = self.mods['fbuild.db.database'].Database
        close = D.close
        run = self

        def closing(db):
            run.saves += 1
            if run.interrupt_save:
                signal.raise_signal(signal.SIGINT)
                for i in range(100):
                    pass
            return close(db)
        D.close = closing
        contexts = []
        init = context.Context.__init__

        def remember(self, *a, **kw):
            contexts.append(self)
            init(self, *a, **kw)
        context.Context.__init__ = remember
        old = signal.getsignal(signal.SIGINT)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        out, sys.stdout = sys.stdout, io.StringIO()
        oldargv, sys.argv = sys.argv, ['fbuild-light']
        path = sys.path[:]
        try:
            try:
                r = main.main(['fbuild-light'] + argv)
                end = 'returned %r' % (r,)
            except SystemExit as e:
                end = 'exit %r' % (e.code,)
            except KeyboardInterrupt:
                end = 'interrupted'
            except self.mods['fbuild'].Error as e:
                end = 'error'
            except Oops:
                end = 'oops'
            except ImportError:
                end = 'import'
        finally:
            sys.path[:] = path
            self.out = sys.stdout.getvalue()
            sys.stdout = out
            sys.argv = oldargv
            self.handler = signal.getsignal(signal.SIGINT)
            signal.signal(signal.SIGINT, old)
            for x in contexts:
                # (the database thread must not outlive a path of a broken program)
                f = x.logger.file
                if f:
                    f.flush()
                self.alive = getattr(x.db._rpc, '_running', None) or x.db._rpc.is_alive()
                if self.alive:
                    try:
                        x.db.shutdown()
                    except BaseException:
                        pass
                self.workers = x.scheduler.threadcount
                x.scheduler.shutdown()
        return end


def run(ctx, runs=2, maxtargets=2, names=('build', 'configure', 'check', 'install', 'nosuch'), outcomes=('ok', 'error', 'oops', 'interrupt'),
        options=('', '--rebuild', '--do-not-save-database', '--clean', '--delete-function', '--dump-state'), failing=1, hooks=False,
        defines=True, saving=False, jobs=1, engine=None, missing=False, files=False, own=False):
    w = World(ctx)
    w.write('input', None)
    saved = None            # what the state knows; None: no state
    tmpleft = False
    states = {}
    for n in range(runs):
        if n < failing:
            fails = ctx.pick('run%d_fails' % n, ['', *[t for t in names if t not in ('install', 'nosuch')]] + (['pre_install', 'post_install'] if hooks else []))
            how = ctx.pick('run%d_outcome' % n, outcomes[1:]) if fails else 'ok'
        else:
            fails = how = ''
        parts = []
        have = ['build', 'check']
        parts += [BUILD, EXTRA]
        if defines is not True or ctx.is_true(ctx.bool('run%d_configure' % n)):
            parts.append(CONFIGURE)
            have.append('configure')
        if hooks:
            if ctx.is_true(ctx.bool('run%d_pre' % n)):
                parts.append(PRE)
                have.append('pre_install')
            if ctx.is_true(ctx.bool('run%d_post' % n)):
                parts.append(POST)
                have.append('post_install')
        targets = []
        for k in range(ctx.pick('run%d_targets' % n, range(maxtargets + 1))):
            targets.append(ctx.pick('run%d_target%d' % (n, k), names))
        opt = ctx.pick('run%d_option' % n, options)
        argv = ['--buildroot', os.path.join(os.path.basename(w.dir), 'build')] + (['--jobs', str(jobs)] if jobs != 1 else []) + (['--database-engine', engine] if engine else [])
        if opt:
            argv.append(opt)
        sfile = lfile = ''
        if files:
            sfile = ctx.pick('run%d_state_file' % n, ['', 'x.db', 'sub/dir/y.db'])
            lfile = ctx.pick('run%d_log_file' % n, ['', 'my.log', 'logs/my.log'])
            argv += ['--state-file', sfile] * bool(sfile) + ['--log-file', lfile] * bool(lfile)
        more = ctx.pick('run%d_more' % n, ['', 'a', 'b c']) if own else None
        if own:
            parts.append(ARGS)
            if more:
                argv += ['--more', more]
        what_deleted = None
        if opt == '--delete-function':
            what_deleted = ctx.pick('run%d_delete' % n, ['cached', 'nothing'])
            argv.append('fbuildroot.' + what_deleted)
        if opt == '--delete-file':
            what_deleted = ctx.pick('run%d_delete' % n, ['input', 'nothing'])
            argv.append(w.path(what_deleted))
        argv += targets
        isave = saving and ctx.is_true(ctx.bool('run%d_interrupt_save' % n))
        gone = missing and ctx.is_true(ctx.bool('run%d_missing' % n))
        r = Run(ctx, w, n, None if gone else parts, lambda t: how if t == fails else 'ok', isave)
        if own:
            r.more = more or 'nothing'
        r.jobs = jobs
        shutil.rmtree(w.path('dest'), ignore_errors=True)
        if files:
            # (what a state in another file knows)
            saved = states.get(sfile)
            for x in ('fbuild.log', 'my.log', 'logs/my.log'):
                if w.exists('build/' + x):
                    os.remove(w.path('build/' + x))
        existed = w.exists('build')
        end = r.main(argv)
        # -- what should have happened
        what = (argv, fails, how, end, r.ran, r.executed)
        todo = list(targets) or ['build']
        ran, want, deleted, done, built = [], 'returned 0', False, False, False
        if gone:
            want = 'error'
            todo = []
        elif opt == '--clean':
            want = 'returned None'
            todo = []
        elif opt == '--dump-state':
            todo = []
        elif opt in ('--delete-function', '--delete-file'):
            todo = []
            if what_deleted != 'nothing' and saved:
                deleted = True
            else:
                want = 'exit 1'
        elif 'install' in todo:
            if todo[-1] != 'install':
                want = 'exit 1'
                todo = []
            elif not set(todo) - {'configure', 'install'}:
                todo.insert(todo.index('install'), 'build')
        for t in todo:
            if t == 'install':
                steps = [h for h in ('pre_install', '', 'post_install') if h in have or not h]
            elif t in have:
                steps = [t]
            else:
                want = 'exit 1'
                break
            for s in steps:
                if not s:
                    done = True
                    built = built or 'build' in ran
                    continue
                ran.append(s)
                if s == fails and how != 'ok':
                    want = {'error': 'exit 1', 'oops': 'oops', 'interrupt': 'interrupted'}[how]
                    break
            else:
                continue
            break
        ctx.check(r.ran == ran, 'targets run in order, until one fails', (what, ran))
        ctx.check(end == want, 'the program ends as the build did', (what, want))
        ctx.check(r.workers == 0, 'no thread is left', what)
        ctx.check(not r.alive or gone or opt == '--clean', 'no thread is left', what)
        # -- the state
        base = None if opt in ('--rebuild', '--configure') else saved
        if gone:
            ctx.check(w.exists('build') == existed, 'nothing happens without a fbuildroot', what)
            ctx.reach('no fbuildroot')
        elif opt == '--clean':
            ctx.check(not w.exists('build'), 'clean removes the build directory', what)
            saved = None
            states.clear()
            tmpleft = False
            ctx.reach('cleaned')
        else:
            expect = [t for i, t in enumerate(ran) if t in ('build', 'configure', 'check')
                      and t not in (base or ()) and t not in ran[:i]]
            ctx.check(r.executed == expect, 'cached functions run unless the state knows them', (what, expect, saved))
            new = set(base or ()) | set(expect)
            if deleted:
                new = set()
                ctx.reach('deleted')
            if opt == '--do-not-save-database':
                ctx.check(r.saves == 0, 'the state is not saved', what)
                ctx.reach('not saved')
                # (nothing was changed)
            else:
                ctx.check(r.saves == 1, 'the state is saved, however the build ends', what)
                saved = new
            if opt in ('--rebuild', '--configure'):
                ctx.reach('rebuilt')
            if files:
                states[sfile] = saved
                ctx.check(opt == '--do-not-save-database' or os.path.isfile(w.path('build/' + (sfile or 'fbuild-state.db'))), 'the state is where it was asked for', what)
                ctx.reach('own files')
            ctx.check(r.handler is not signal.SIG_IGN, 'interrupts are noticed after the state was saved', what)
            # -- temporary files
            ok = want == 'returned 0'
            ctx.check(w.exists('build/.tmp') == (not ok), 'temporary files are removed if the build succeeded', what)
            ctx.check(os.path.isfile(w.path('build/' + (lfile or 'fbuild.log'))), 'the log is written', what)
            if want == 'exit 1':
                with open(w.path('build/' + (lfile or 'fbuild.log'))) as f:
                    ctx.check(f.read().strip(), 'errors are logged', what)
            # -- installation
            if done:
                if built:
                    ctx.check(w.exists('dest/usr/share/made'), 'install installs what was to be installed', what)
                    if 'pre_install' in ran:
                        ctx.check(not r.installed_before or ran.count('pre_install') > 1, 'pre_install comes before', what)
                    if 'post_install' in ran:
                        ctx.check(r.installed_after, 'post_install comes after', what)
                    ctx.reach('installed')
            else:
                ctx.check(not w.exists('dest'), 'only install installs', what)
        ctx.reach('run')
        ctx.reach(want)
    ctx.observe((what, sorted(saved or ())))
    ctx.sample(argv=argv, end=end)
