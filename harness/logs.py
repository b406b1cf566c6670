"""The logger, used by several threads (virtual threads)."""
import re
from symx import fresh
from symx.vthread import Runtime


def log(ctx, threads=2, ops=2, preempt=1, points=True, threadcount=2, kinds=('log', 'check', 'result', 'write', 'nested', 'end'),
        scoped=True, levels=1, alike=False):
    fresh.forget()
    rt = Runtime(ctx, preempt=preempt, points=points)
    mod, = rt.load('fbuild.console')
    threading = rt.modules['threading']
    rt.calm = True
    level = ctx.int('verbose', 0, 4)
    out, file = [], []

    class Sink:
        def __init__(self, to):
            self.to = to

        def write(self, s):
            self.to.append((rt.me().name, s))
            rt.point()

        def flush(self):
            pass

    class Sys:
        platform = 'linux'
        stdout = Sink(out)
    mod.sys = Sys
    # (colours are escape sequences around the text)
    l = mod.Log(Sink(file), verbose=level, nocolor=True, threadcount=threadcount)
    plans, expect = [], []
    # every thread has the same alternatives; what it does is symbolic
    for i in range(threads):
        if alike and plans:
            plan = plans[0]
        else:
            plan = []
            for k in range(ops):
                kind = ctx.pick('thread%d_op%d' % (i, k), kinds)
                if plan and plan[-1][0] == 'write' and kind == 'nested':
                    kind = 'log'
                if kind != 'end':
                    plan.append((kind, ctx.int('verbose%d_%d' % (i, k), 0, 4) if levels else 0))
                else:
                    break
        plans.append(plan)
        units = [[]]

        def put(text, v):
            units[-1].append((text, v))
            if text.endswith('\n'):
                units.append([])
        for k, (kind, v) in enumerate(plan):
            m = 't%dm%d' % (i, k)
            put(m, v)
            if kind == 'result':
                put('r' + m, v)
            if kind == 'check':
                put('\n', v + 1)
            elif kind != 'write':
                put('\n', v)
        expect.append([u for u in units if u])

    def run(i):
        def one(k, kind, v):
            m = 't%dm%d' % (i, k)
            if kind == 'log':
                l.log(m, verbose=v)
            elif kind == 'check':
                l.check(m, verbose=v)
            elif kind == 'result':
                l.check(m, 'r' + m, verbose=v)
            elif kind == 'write':
                l.write(m, verbose=v)
            else:
                with l.log_from_thread():
                    l.log(m, verbose=v)
        if scoped:
            with l.log_from_thread():
                for k, (kind, v) in enumerate(plans[i]):
                    one(k, kind, v)
        else:
            for k, (kind, v) in enumerate(plans[i]):
                one(k, kind, v)
    ts = [threading.Thread(target=run, args=(i,), name='t%d' % i) for i in range(threads)]
    rt.calm = False
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    rt.calm = True
    ctx.check(all(t.done and not getattr(t, 'exc', None) for t in rt.threads if t is not rt.main), 'no thread died',
              repr([getattr(t, 'exc', None) for t in rt.threads]))

    def compare(sink, units, where):
        text = ''.join(s for n, s in sink)
        what = '%s: %r instead of %r' % (where, text, units)
        tokens = re.findall(r'r?t\d+m\d+|\n', text)
        # (a colon and spaces separate a message from its result)
        ctx.check(not re.sub(r'r?t\d+m\d+|[\n :]', '', text), 'everything is logged, in the order of the thread', what)
        for i in range(threads):
            names = [t for t in tokens if re.fullmatch(r'r?t%dm\d+' % i, t)]
            flat = [t.strip() for u in units[i] for t in u if t.strip()]
            ctx.check(names == flat, 'everything is logged, in the order of the thread', what)
        ctx.check(tokens.count('\n') == sum(t.endswith('\n') for us in units for u in us for t in u),
                  'everything is logged, in the order of the thread', what)
        # the pieces of a line are next to each other
        pos = 0
        nxt = [0] * threads
        while pos < len(tokens):
            m = re.match(r'r?t(\d+)m', tokens[pos])
            i = int(m.group(1)) if m else None
            ctx.check(m is not None and nxt[i] < len(units[i]), 'lines appear whole', what)
            u = units[i][nxt[i]]
            ctx.check(tokens[pos:pos + len(u)] == u, 'lines appear whole', what)
            pos += len(u)
            nxt[i] += 1
        ctx.reach('logged')
    compare(file, [[[t for t, _ in u] for u in us] for us in expect], 'file')
    shown = [[[t for t, v in u if ctx.is_true(v <= level)] for u in us] for us in expect]
    compare(out, [[u for u in us if u] for us in shown], 'console')
    ctx.observe((file, out))
    ctx.sample(plans=[[p[0] for p in x] for x in plans])
