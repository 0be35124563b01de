"""PyPy worker: executes generated cases against codeprep imported from /repo's working tree.

JSON lines on stdin -> JSON lines on the original stdout.  Started by vf/client.py (replays: ./check --replay FILE).
"""
import importlib
import json
import os
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.setdefault('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def setup_process():
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    import codeprep
    where = os.path.realpath(codeprep.__file__)
    assert where.startswith(os.path.realpath(REPO) + os.sep), where
    logging.disable(logging.CRITICAL)
    import tqdm
    tqdm.tqdm.monitor_interval = 0      # its monitor thread races with the progress bars on PyPy
    import common
    common.guard_destructive_calls()


def load(check_id):
    return importlib.import_module('checks.' + check_id.lower())


def run_case(mod, case):
    import common
    try:
        res = mod.run(case) or {}
        return {'ok': True, 'nontrivial': bool(res.get('nontrivial')), 'labels': res.get('labels', []),
                'n': res.get('n', 1), 'known': res.get('known', [])}
    except common.Skip as e:
        return {'ok': True, 'skip': str(e) or 'skip'}
    except common.Violation as e:
        return {'ok': False, 'msg': str(e)}
    except Exception:
        return {'error': traceback.format_exc()}


def serve():
    out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    inp = os.fdopen(os.dup(0), 'r', encoding='utf-8')
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    sink = os.environ.get('VERIF_STDERR')
    os.dup2(os.open(sink, os.O_WRONLY | os.O_CREAT | os.O_APPEND) if sink else devnull, 2)
    os.set_inheritable(out.fileno(), False)
    setup_process()
    mods = {}
    out.write('{"ready": true}\n')
    out.flush()
    me = os.getpid()
    for line in inp:
        req = json.loads(line)
        cid = req['check']
        if cid not in mods:
            mods[cid] = load(cid)
        if req.get('cmd') == 'probes':
            try:
                res = {'probes': mods[cid].probes() if hasattr(mods[cid], 'probes') else []}
            except Exception:
                res = {'error': traceback.format_exc()}
        else:
            res = run_case(mods[cid], req['case'])
        if os.getpid() != me:      # a child escaped from a check: never answer twice
            os._exit(70)
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    serve()
