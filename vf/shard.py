"""One shard of a check: Hypothesis generates (and shrinks) cases, a PyPy worker decides them."""
import collections
import hashlib
import json
import os
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
import hypothesis.internal.conjecture.engine as engine

from client import Worker, WorkerDied, WorkerHung
import plans

SHRINK_S = 40
engine.MAX_SHRINKING_SECONDS = SHRINK_S


class Stop(BaseException):
    pass


class Failing(Exception):
    pass


def size(case):
    return len(json.dumps(case, ensure_ascii=False))


def main(check_id, shard, nshards, tier, seed, out_path, stop_path, wall):
    t0 = time.time()
    check = plans.CHECKS[check_id]
    st = dict(evals=0, skips=collections.Counter(), labels=collections.Counter(), samples=[], known=collections.Counter(),
              nontrivial=set(), phases={}, stopped=None)
    box = {'w': None, 'history': [], 'first_fail': None, 'best': None, 'fail_at': None, 'n': 0}
    error = None

    def worker():
        if box['w'] is None:
            box['w'] = Worker(check.preload)
            box['history'] = []
        return box['w']

    def drop():
        if box['w'] is not None:
            box['w'].close()
            box['w'] = None

    def fail(case, msg, kind='violated'):
        if box['first_fail'] is None:
            box['first_fail'] = {'case': case, 'msg': msg, 'kind': kind, 'prefix': list(box['history'])}
            box['fail_at'] = time.time()
        if box['best'] is None or size(case) < size(box['best']['case']):
            box['best'] = {'case': case, 'msg': msg, 'kind': kind}
        if kind != 'violated':
            raise Stop()
        raise Failing()

    def step(case, phase):
        now = time.time()
        if box['fail_at'] is not None and now - box['fail_at'] > SHRINK_S:
            raise Stop()
        if box['fail_at'] is None and now - t0 > wall:
            st['stopped'] = 'wall'
            raise Stop()
        if box['fail_at'] is None and box['n'] % 4 == 0 and os.path.exists(stop_path):
            st['stopped'] = 'another shard failed'
            raise Stop()
        box['n'] += 1
        w = worker()
        try:
            res = w.ask({'check': check_id, 'case': case}, check.timeout)
        except WorkerHung as e:
            drop()
            fail(case, str(e), 'hung')
        except WorkerDied as e:
            drop()
            fail(case, str(e), 'died')
        if 'error' in res:
            raise RuntimeError('harness error in worker: %s\ncase: %s' % (res['error'], json.dumps(case)[:2000]))
        if check.history:
            box['history'].append(case)
        if box['fail_at'] is None:
            st['evals'] += res.get('n', 1)
            st['phases'][phase] = st['phases'].get(phase, 0) + 1
            for l in res.get('labels', ()):
                st['labels'][l] += 1
            for k in res.get('known', ()):
                st['known'][k] += 1
            if 'skip' in res:
                st['skips'][res['skip'][:60]] += 1
            elif res.get('nontrivial'):
                h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()
                if h not in st['nontrivial']:
                    st['nontrivial'].add(h)
                    k = len(st['nontrivial'])
                    if k in (3, 40) and size(case) < 6000:
                        st['samples'].append({'phase': phase, 'case': case, 'labels': res.get('labels', ())})
        if not res['ok']:
            fail(case, res['msg'])

    try:
        if shard == 0:
            path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'regress', check_id + '.jsonl')
            if os.path.exists(path):
                with open(path, encoding='utf-8') as f:
                    for line in f:
                        if line.strip():
                            try:
                                step(json.loads(line), 'saved')
                            except Failing:
                                raise Stop()
        for k, (name, strategy, total) in enumerate(check.plan(tier)):
            n = max(1, (total + nshards - 1 - shard) // nshards) if total >= nshards else (1 if shard < total else 0)
            if n == 0:
                continue

            @hypothesis.seed((seed * 1009 + shard) * 131 + k)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                      print_blob=False, phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))
            @given(strategy)
            def prop(case):
                step(case, name)

            try:
                prop()
            except Failing:
                break
            except hypothesis.errors.Flaky:
                if box['first_fail'] is None:
                    raise
                break
            if box['first_fail'] is not None:
                break
    except Stop:
        pass
    except BaseException as e:
        if isinstance(e, BaseExceptionGroup) and box['first_fail'] is not None:
            pass
        else:
            error = traceback.format_exc()
    finally:
        drop()
    if box['first_fail'] is not None and not error:
        with open(stop_path, 'w'):
            pass
    st['nontrivial'] = sorted(st['nontrivial'])
    res = dict(st, first_fail=box['first_fail'], best=box['best'], error=error, wall=time.time() - t0)
    with open(out_path + '.tmp', 'w', encoding='utf-8') as f:
        json.dump(res, f)
    os.rename(out_path + '.tmp', out_path)


if __name__ == '__main__':
    sys.stdout = open(os.devnull, 'w')
    a = sys.argv[1:]
    main(a[0], int(a[1]), int(a[2]), a[3], int(a[4]), a[5], a[6], float(a[7]))
