"""./check ID [--tier quick|thorough]: decide one property of /repo's current tree by generated-input search."""
import argparse
import collections
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import client
from client import VERIF, Worker, WorkerDied, WorkerHung
import plans


def run_shards(check, tier, seed, nshards, wall, scratch):
    stop = os.path.join(scratch, 'stop')
    procs = []
    env = dict(os.environ, TMPDIR=scratch, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, 'hyp'))
    for i in range(nshards):
        out = os.path.join(scratch, 'shard%d.json' % i)
        errf = open(os.path.join(scratch, 'shard%d.err' % i), 'wb')
        p = subprocess.Popen([sys.executable, '-B', os.path.join(VERIF, 'vf', 'shard.py'), check.id, str(i), str(nshards), tier,
                              str(seed), out, stop, str(wall)], env=env, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=errf, cwd=scratch)
        errf.close()
        procs.append((p, out, i))
    results = []
    limit = time.time() + wall + check.timeout + 240
    for p, out, i in procs:
        try:
            p.wait(max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if os.path.exists(out):
            with open(out, encoding='utf-8') as f:
                results.append(json.load(f))
        else:
            with open(os.path.join(scratch, 'shard%d.err' % i), errors='replace') as f:
                results.append({'error': 'shard %d ended without a result (%s)\n%s' % (i, p.returncode, f.read()[-3000:])})
    return results


def confirm(check, results):
    """-> (cases, message) of a violation that reproduces in a fresh process, or None"""
    fails = [r for r in results if r.get('first_fail')]
    if not fails:
        return None
    cands = sorted((r['best'] for r in fails), key=lambda b: len(json.dumps(b['case'])))
    cands += [r['first_fail'] for r in fails]
    notes = []
    seen = set()
    t0 = time.time()
    for c in cands:
        key = json.dumps(c['case'], sort_keys=True)
        if key in seen or time.time() - t0 > 240:
            continue
        seen.add(key)
        for _ in range(check.confirm_tries):
            kind, msg, _i = client.replay(check.id, [c['case']], check.timeout * 2, check.preload)
            if kind == 'violated' or kind in ('hung', 'died') and c['kind'] in ('hung', 'died'):
                return [c['case']], msg if kind == 'violated' else 'the call never completes normally: %s' % msg, notes
            if kind == 'error':
                notes.append(msg)
                break
    # it may need the preceding history
    for r in sorted(fails, key=lambda r: len(r['first_fail']['prefix'])):
        if time.time() - t0 > 420:
            break
        ff = r['first_fail']
        prefix = ff['prefix']
        if prefix and prefix[-1] == ff['case']:
            prefix = prefix[:-1]
        for k in [1, 2, 4, 16, 64, 256, len(prefix)]:
            cases = prefix[-k:] + [ff['case']]
            kind, msg, i = client.replay(check.id, cases, check.timeout * 2, check.preload)
            if kind == 'violated':
                return cases[:i + 1], msg, notes
            if kind == 'error':
                notes.append(msg)
                break
            if k >= len(prefix):
                break
    notes.append('a failure was observed but does not reproduce: %s' % fails[0]['first_fail']['msg'][:1500])
    return None, None, notes


def load_known(check_id):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path, encoding='utf-8') as f:
        data = json.load(f)
    return {k['id']: k for k in data['findings'] if k['property'] == check_id}


def clip(x, n=700):
    s = json.dumps(x, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + '...'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--replay', help='run the cases of a replay file in a fresh process')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--shards', type=int, default=0)
    args = ap.parse_args()
    if args.replay:
        return replay_file(args.replay)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    check = plans.CHECKS[args.property]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % check.id)
    code = 2
    try:
        code = decide(check, tier, seed, args.shards, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return code


def replay_file(path):
    with open(path, encoding='utf-8') as f:
        rep = json.load(f)
    check = plans.CHECKS[rep['property']]
    kind, msg, i = client.replay(check.id, rep['cases'], check.timeout * 2, check.preload)
    print('%s%s' % (kind, ' on case %d: %s' % (i, msg) if i >= 0 else ''))
    return 0 if kind == 'ok' else 1 if kind == 'violated' else 2


def decide(check, tier, seed, shards, scratch, t0):
    nshards = shards or check.shards or min(8, max(2, os.cpu_count() or 8))
    wall = check.wall[tier]
    if check.preload and not os.path.exists(client.SHIM):
        subprocess.run(['bash', os.path.join(VERIF, 'setup.sh')], check=True, stdout=subprocess.DEVNULL)
    known = load_known(check.id)
    probe_hits, unlisted = [], []
    try:
        w = Worker(check.preload)
        try:
            r = w.ask({'check': check.id, 'cmd': 'probes'}, check.timeout * 2)
        finally:
            w.close()
        if 'error' in r:
            print('harness error in the probes of %s:\n%s' % (check.id, r['error']))
            return 2
        for p in r['probes']:
            if p['failing']:
                (probe_hits if p['id'] in known else unlisted).append(p)
    except (WorkerDied, WorkerHung) as e:
        print('harness error: worker for the probes: %s' % e)
        return 2
    results = run_shards(check, tier, seed, nshards, wall, scratch)
    errors = [r['error'] for r in results if r.get('error')]
    found = confirm(check, results)
    cases = msg = None
    notes = []
    if found:
        cases, msg, notes = found
    if cases is None and unlisted:
        cases, msg = [unlisted[0]['case']], unlisted[0]['what']

    labels, skips, phases, knownc = (collections.Counter() for _ in range(4))
    nontrivial = set()
    samples = []
    evals = 0
    stopped = set()
    for r in results:
        if 'evals' not in r:
            continue
        evals += r['evals']
        labels.update(r['labels'])
        skips.update(r['skips'])
        phases.update(r['phases'])
        knownc.update(r['known'])
        nontrivial.update(r['nontrivial'])
        samples.extend(r['samples'])
        if r['stopped']:
            stopped.add(r['stopped'])
    samples = samples[:8]
    evidence = {
        'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(nontrivial), 'rule': check.rule,
            'samples': [clip(s) for s in samples],
            'classes': dict(sorted(labels.items(), key=lambda kv: -kv[1])),
            'skipped': dict(skips), 'generators': dict(phases), 'shards': nshards,
        },
        'assumptions': check.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if cases else 0,
    }
    if knownc or probe_hits:
        evidence['coverage']['known_findings_hit'] = dict(knownc, **{p['id']: knownc.get(p['id'], 0) + 1 for p in probe_hits})
    if stopped:
        evidence['coverage']['stopped_early'] = sorted(stopped)
    if notes:
        evidence['coverage']['notes'] = [n[:1500] for n in notes[:5]]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', check.id + '.json')
    with open(path + '.tmp', 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write('\n')
    os.rename(path + '.tmp', path)

    for p in probe_hits:
        print('KNOWN-FINDING: property=%s %s: %s' % (check.id, p['id'], p['what']))
    if cases is not None:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rp = os.path.join(VERIF, 'replays', '%s-seed%d-%s.json' % (check.id, seed, tier))
        with open(rp, 'w', encoding='utf-8') as f:
            json.dump({'property': check.id, 'message': msg, 'cases': cases,
                       'how': './check --replay %s' % rp}, f, indent=1, ensure_ascii=True)
            f.write('\n')
        print(msg if len(msg) < 6000 else msg[:6000] + '...')
        print('VIOLATION property=%s replay=%s' % (check.id, rp))
        return 1
    if errors:
        print('harness error in %d shard(s):\n%s' % (len(errors), errors[0][-4000:]))
        return 2
    if notes:
        print('note: ' + notes[-1][:2000])
    print('%s: held on %d evaluations (%d distinct non-trivial) in %.1f s%s' % (
        check.id, evals, len(nontrivial), time.time() - t0, '; stopped early: %s' % sorted(stopped) if stopped else ''))
    return 0


if __name__ == '__main__':
    sys.exit(main())
