"""Replay solver models against the real code, concretely.

usage: <deployment python> replay.py FILE
  FILE: a JSON file {"harness":.., "params":.., "model":..} (a counterexample), or
  {"validate": [ {harness, params, model, observed} ... ]}.
Exit 0: the property held; 1: the violation reproduced; 3: error.
"""
import importlib
import json
import os
import shutil
import sys
import tempfile
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from symx import core, fresh


def run_one(item, out=None):
    mod, fn = item['harness'].split(':')
    fn = getattr(importlib.import_module('harness.' + mod), fn)
    ctx = core.ConcreteCtx(item['model'], item['params'])
    ctx.cleanups = []
    core.set_current(ctx)
    try:
        fn(ctx, **item['params'])
    except core.PathEnd as e:
        return 'cut', str(e), ctx
    except core.PathViolation as e:
        return 'violation', str(e), ctx
    except core.Inconclusive as e:
        return 'inconclusive', str(e), ctx
    except Exception as e:
        return 'violation', 'unexpected exception: ' + traceback.format_exc(), ctx
    finally:
        for c in reversed(ctx.cleanups):
            try:
                c()
            except Exception:
                pass
    return 'ok', '', ctx


def main():
    with open(sys.argv[1]) as f:
        data = json.load(f)
    base = tempfile.mkdtemp(prefix='symx-replay-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    os.chdir(base)
    os.environ['SYMX_SCRATCH'] = '/proc/self/cwd'
    import threading
    threading.excepthook = lambda a: None
    rc = 0
    try:
        fresh.install()
        if 'validate' in data:
            bad = []
            for item in data['validate']:
                res, msg, ctx = run_one(item)
                if res != 'ok' or ctx.observed != item['observed']:
                    bad.append({'item': item, 'result': res, 'msg': msg, 'observed': ctx.observed})
            print('VALIDATION ' + json.dumps({'n': len(data['validate']), 'bad': bad}))
        else:
            res, msg, ctx = run_one(data)
            print('REPLAY %s %s' % (res, msg))
            rc = {'ok': 0, 'violation': 1}.get(res, 3)
    finally:
        os.chdir('/')
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
