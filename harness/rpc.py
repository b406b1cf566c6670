"""The rpc thread under every schedule (virtual threads)."""
from symx import fresh
from symx.vthread import Runtime


class Boom(Exception):
    pass


def rpc(ctx, clients=2, calls=1, joins=1, preempt=1, points=True, fail=True, early=True, wait=1):
    fresh.forget()
    rt = Runtime(ctx, preempt=preempt, points=points)
    mod, = rt.load('fbuild.rpc')
    threading = rt.modules['threading']
    rt.calm = True
    inside, handled, outcome = [], [], {}
    fails = {(i, k): fail and ctx.is_true(ctx.bool('fail%d_%d' % (i, k)))
             for i in range(clients) for k in range(calls)}
    vals = {x: ctx.atom('value%d_%d' % x, 0, None) for x in fails}

    def handler(i, *, k):
        x = (i, k)
        ctx.check(not inside, 'one call is handled at a time', '%r while %r' % (x, inside))
        ctx.check(rt.me() is not rt.main and rt.me().obj is r, 'calls are handled in the rpc thread')
        inside.append(x)
        rt.point()
        handled.append(x)
        inside.remove(x)
        if fails[x]:
            raise Boom(x)
        return (x, vals[x])

    r = mod.RPC(handler)
    r.daemon = True
    try:
        r.call(0, k=0)
        ctx.fail('calls before the start are refused')
    except mod.RPCNotRunning:
        pass
    r.start()
    begun = set()

    def client(i):
        for k in range(calls):
            x = (i, k)
            begun.add(x)
            try:
                outcome[x] = ('value', r.call(i, k=k))
            except Boom as e:
                outcome[x] = ('error', e)
            except mod.RPCNotRunning:
                outcome[x] = ('refused', None)

    def joiner():
        r.join()
        ctx.check(not r.is_alive(), 'the thread ended when join returns')

    ts = [threading.Thread(target=client, args=(i,)) for i in range(clients)]
    ts += [threading.Thread(target=joiner) for j in range(joins - 1)]
    rt.calm = False
    for t in ts:
        t.start()
    if early:
        for i in range(wait):
            rt.relax()
    else:
        for t in ts[:clients]:
            t.join()
    r.join()
    ctx.check(not r.is_alive() and r._vinfo.done, 'the thread ended when join returns')
    ended = list(handled)
    rt.calm = True
    for t in ts:
        t.join()
    ctx.check(handled == ended, 'no call is handled after join')
    for x in sorted(begun):
        kind, got = outcome.get(x, ('none', None))
        n = handled.count(x)
        if kind == 'refused':
            ctx.reach('refused')
            ctx.check(early, 'calls are accepted until join')
            ctx.check(n == 0, 'a refused call is not handled', repr(x))
        else:
            ctx.check(n == 1, 'every call is handled once', '%r %r' % (x, handled))
            if fails[x]:
                ctx.reach('failed')
                ctx.check(kind == 'error' and got.args[0] == x, 'the exception of the handler is raised in the caller', '%r %r %r' % (x, kind, got))
            else:
                ctx.reach('answered')
                ctx.check(kind == 'value', 'the result of the handler is returned to the caller', '%r %r' % (x, kind))
                ctx.check(ctx.eq(got, (x, vals[x])), 'every caller gets its own result', '%r %r' % (x, got))
    for i in range(clients):
        mine = [k for (c, k) in handled if c == i]
        ctx.check(mine == sorted(mine), 'the calls of a thread are handled in order')
        ctx.check(len([x for x in begun if x[0] == i]) == calls, 'no caller is left hanging')
    try:
        r.call(0, k=0)
        ctx.fail('calls after join are refused')
    except mod.RPCNotRunning:
        pass
    r.join()
    ctx.check(all(t.done and not getattr(t, 'exc', None) for t in rt.threads if t is not rt.main), 'no thread died',
              repr([getattr(t, 'exc', None) for t in rt.threads]))
    ctx.observe((handled, sorted((x, o[0]) for x, o in outcome.items())))
    ctx.sample(clients=clients, handled=len(handled))
