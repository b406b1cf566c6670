from .c10 import ASSUME


def jobs(tier):
    q = tier == 'quick'
    J = [('execs:execute', dict(outputs=False)),
         ('execs:execute', dict(outputs=False, where='task', preempt=1, shell=False)),
         ('execs:execute', dict(outputs=True, timeout=False, interrupt=False, shell=False)),
         ('execs:execute', dict(outputs=False, timeout=False, interrupt=False, env=True, shell=False)),
         ('execs:together', dict(preempt=1)),
         ('execs:together', dict(preempt=0, n=3))]
    if not q:
        J += [('execs:execute', dict(outputs=False, where='main', preempt=1, points=True, shell=False)),
              ('execs:execute', dict(outputs=False, where='task', threads=2, preempt=1, points=True, shell=False)),
              ('execs:execute', dict(outputs=True, timeout=True, interrupt=True, shell=True)),
              ('execs:execute', dict(outputs=False, timeout=True, interrupt=True, env=True, shell=True)),
              ('execs:together', dict(preempt=1, nested=True)),
              ('execs:together', dict(preempt=0, n=3, threads=3)),
              ('execs:together', dict(preempt=2))]
    return J


SPEC = dict(
    jobs=jobs,
    require=['returned', 'failed', 'timed out', 'interrupted', 'interrupted itself', 'not started',
             'a command that cannot be started raises OSError', 'a command that fails raises ExecutionError',
             'a command that succeeds returns what it printed', 'a command that takes too long raises ExecutionTimedOut',
             'a process is killed together with its children', 'an interrupt ends the build', 'an interrupted command is interrupted too',
             'no process is left', 'nobody is killed afterwards', 'only commands that take too long are killed', 'only one task runs at a time',
             'other arguments are passed on', "the caller's environment stays as it is", 'the command gets its input', 'the command is run as given',
             'the command is run once', 'the environment is that of the build, with what was given', 'the exception tells what was run',
             'the scheduler goes on', 'what the command printed is logged'],
    bounds='1 command from the main thread or a task, whose exit status (-15 to 255), output, timeout, interruption and arguments are symbolic; up to 3 commands of tasks '
           'at the same time on 2 (thorough: 3) threads; the timer fires at any moment; up to 1 preemption (thorough: 2, also between statements)',
    outside='what the operating system does: processes are a model with start, exit, output and signals; a timer that fires after the command ended counts as either; Windows',
    assumptions=ASSUME + ['processes end, unless they hang until they are killed; a signal to the group of a process ends it'],
)
