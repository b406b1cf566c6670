from .c10 import ASSUME


def jobs(tier):
    q = tier == 'quick'
    J = [('logs:log', dict(ops=1, levels=1, preempt=1, alike=True)),
         ('logs:log', dict(ops=3, levels=1, preempt=0, alike=True, kinds=('log', 'check', 'nested', 'end'))),
         ('logs:log', dict(ops=2, levels=0, preempt=1, alike=True, kinds=('result', 'write'))),
         ('logs:log', dict(ops=2, levels=0, preempt=1, alike=True, kinds=('log', 'nested'))),
         ('logs:log', dict(threads=1, ops=3, levels=1, preempt=0, threadcount=1))]
    if not q:
        J += [('logs:log', dict(ops=2, levels=1, preempt=1)),
              ('logs:log', dict(threads=3, ops=1, levels=0, preempt=1, kinds=('log', 'result', 'nested'))),
              ('logs:log', dict(ops=2, levels=0, preempt=2, alike=True, kinds=('log', 'check'))),
              ('logs:log', dict(ops=3, levels=0, preempt=1, alike=True))]
    return J


SPEC = dict(
    jobs=jobs,
    require=['logged', 'everything is logged, in the order of the thread', 'lines appear whole', 'no thread died'],
    bounds='2 threads (thorough: also 3) of up to 3 operations (log, check with and without result, write, nested log_from_thread), 1 preemption (thorough: 2), '
           'any verbosity of log and messages',
    outside='colours and the columns of the text; threads that log outside log_from_thread while others run',
    assumptions=ASSUME,
)
