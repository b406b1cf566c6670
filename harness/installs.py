"""Installation: where files go, and what is there afterwards."""
import os
import stat
import sys

from symx import fresh
from symx.world import World
from . import text as T

RANGES = ((46, 47), (97, 99))


def where(ctx, maxlen=2, prefix=2, rename=False):
    """The target of Context.install for any texts."""
    cm, pm = T.load(ctx, 'fbuild.context', 'fbuild.path', only=('fbuild.context', 'fbuild.path'))
    c = cm.Context.__new__(cm.Context)
    c.to_install = []
    c.install_destdir = '/d' + ctx.text('destdir', 0, 1, RANGES)
    c.install_prefix = ctx.text('prefix', 0, prefix, RANGES)
    sub = ctx.text('subdir', 0, maxlen, RANGES)
    name = ctx.text('name', 1, 2, ((97, 98),))
    src = ctx.pick('dir', ['', 'x/', '/y/']) + name
    kw = {}
    if rename:
        kw['rename'] = ctx.text('rename', 1, 2, ((97, 98),))
    perms = ctx.pick('perms', [None, 0o644])
    if perms is not None:
        kw['perms'] = perms
    ctx.check(c.install(src, sub, **kw) is None, 'installation happens later')
    ctx.check(len(c.to_install) == 1, 'a file is installed once')
    item = c.to_install[0]
    t = item.target
    ctx.check(item.perms == perms, 'permissions are remembered')
    if src[:1] != '/':
        want = os.getcwd() + '/' + src
    else:
        want = src
    ctx.check(T.same(ctx, item.source, want), 'the source is the file, wherever one is later', (item.source, want))
    # the names on the way
    what = (t, c.install_destdir, c.install_prefix, sub)
    def names(s):
        out = ['']
        for x in s:
            if T.is_(ctx, x, '/'):
                out.append('')
            else:
                out[-1] = out[-1] + x
        return [n for n in out if n and not T.is_(ctx, n, '.')]
    absolute = sub and T.is_(ctx, sub[0], '/')
    want = names(c.install_destdir) + ([] if absolute else names(c.install_prefix)) + names(sub) + [kw.get('rename', name)]
    got = names(t)
    ctx.check(t and ctx.is_true(T.same(ctx, t[0], '/')), 'the target is in the destdir', what)
    ctx.check(len(got) == len(want), 'the target is in the destdir', what)
    for g, x in zip(got, want):
        ctx.check(T.same(ctx, g, x), 'the target is in the destdir', what)
    ctx.reach('placed')
    ctx.observe((len(got), bool(absolute)))
    ctx.sample(n=len(got))


class Log:
    def __getattr__(self, k):
        return lambda *a, **kw: None


SOURCES = ('file', 'link', 'dangling')
TARGETS = ('absent', 'file', 'link to a file', 'dangling', 'link to the source')


def files(ctx, items=2, sources=SOURCES, targets=TARGETS, perms=(None, 0o600, 0o755), modes=(0o640, 0o755)):
    w = World(ctx)
    fresh.forget()
    cm, pm, im = fresh.load('fbuild.context', 'fbuild.path', 'fbuild.install')
    c = cm.Context.__new__(cm.Context)
    c.to_install = []
    c.logger = Log()
    c.install_destdir = w.path('dest')
    c.install_prefix = '/usr'
    # something that has nothing to do with it
    others = ['other', 'dest/usr/share/existing', 'dest/usr/aim']
    for o in others:
        w.write(o, ctx.atom(o, 0, None))
        os.chmod(w.path(o), 0o604)
    plan = []
    for i in range(items):
        src = 'src%d' % i
        how = ctx.pick('source%d' % i, sources)
        mode = None
        content = ctx.atom('content%d' % i, 0, None)
        link = None
        if how == 'file':
            w.write(src, content)
            mode = ctx.pick('mode%d' % i, modes)
            os.chmod(w.path(src), mode)
        else:
            link = 'other' if how == 'link' else 'nothing'
            os.symlink(link, w.path(src))
        sub = ctx.pick('subdir%d' % i, ['share', '/etc/x'])
        name = 'inst%d' % i
        d = 'dest/usr/share' if sub == 'share' else 'dest/etc/x'
        target = d + '/' + name
        before = ctx.pick('target%d' % i, targets)
        if before != 'absent':
            os.makedirs(w.path(d), exist_ok=True)
        if before == 'file':
            w.write(target, ctx.atom('old%d' % i, 0, None))
            os.chmod(w.path(target), 0o444 if os.getuid() else 0o400)
        elif before == 'link to a file':
            os.symlink('/proc/self/cwd/' + os.path.relpath(w.path('dest/usr/aim')) if not os.path.isabs(w.dir) else w.path('dest/usr/aim'), w.path(target))
        elif before == 'dangling':
            os.symlink(w.path('dest/usr/lost'), w.path(target))
        elif before == 'link to the source':
            os.symlink(w.path(src), w.path(target))
        p = ctx.pick('perms%d' % i, perms)
        kw = {} if p is None else {'perms': p}
        c.install(w.path(src), sub, rename=name, **kw)
        plan.append((src, how, mode, link, content, target, p, before))
    old = {o: (w.read(o), os.stat(w.path(o)).st_mode) for o in others}
    im.Installer(c).install()
    what = [(x[1], x[2], x[5:]) for x in plan]
    for src, how, mode, link, content, target, p, before in plan:
        t = w.path(target)
        ctx.check(os.path.lexists(t), 'every file is installed', what)
        if how == 'file':
            ctx.check(not os.path.islink(t), 'files are installed as files', what)
            ctx.check(ctx.eq(w.read(target), content), 'installed files have the content of the source', what)
            m = stat.S_IMODE(os.stat(t).st_mode)
            ctx.check(m == (mode if p is None else p), 'installed files have the permissions asked for', (what, oct(m)))
            ctx.check(not os.path.islink(w.path(src)) and ctx.is_true(ctx.eq(w.read(src), content)) and
                      stat.S_IMODE(os.stat(w.path(src)).st_mode) == mode, 'sources stay as they are', what)
            ctx.reach('file')
        else:
            ctx.check(os.path.islink(t) and os.readlink(t) == link, 'links are installed as links', what)
            ctx.check(os.path.islink(w.path(src)) and os.readlink(w.path(src)) == link, 'sources stay as they are', what)
            ctx.reach('link')
    for o in others:
        v, m = old[o]
        ctx.check(ctx.is_true(ctx.eq(w.read(o), v)) and os.stat(w.path(o)).st_mode == m, 'nothing else is changed', (o, what))
    here = sorted(os.path.relpath(os.path.join(d, f), w.path('dest')) for d, ds, fs in os.walk(w.path('dest')) for f in fs)
    ctx.check(here == sorted([x[5][5:] for x in plan] + [o[5:] for o in others if o.startswith('dest/')]),
              'nothing else is changed', (here, what))
    ctx.observe(what)
    ctx.sample(items=items)
