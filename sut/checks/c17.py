"""a preprocessing run that is killed or hits a write error at any point leaves no torn result; running again gives the right corpus"""
import os

from common import fresh, require, wipe
from crash import Attempt, point
import fsutil as fs
from checks.c15 import selected

T0 = 1200000000


def prep_files(out):
    return {os.path.basename(k): v for k, v in fs.snapshot(out).items()}


def no_torn_output(out, allowed, what):
    """whatever carries its final name is complete"""
    for rel, data in fs.snapshot(out).items():
        if rel.endswith(b'.prep'):
            require(data in allowed, what + ': an incomplete output file under its final name: %r' % rel, data)


def run(case):
    fs.reset_home()
    base = fresh('c17')
    root = os.path.join(base, 'proj')
    out = os.path.join(base, 'out')
    os.makedirs(root)
    os.makedirs(out)
    fs.plant(root, case['files'])
    fs.set_times(root, T0)
    cfgs, exts, ncpu = case['cfgs'], case['exts'], case['ncpu']

    def want(i):
        src = selected(root, [e.encode() for e in exts] if exts else None)
        return {rel + b'.prep': fs.expected_prep(data, rel, cfgs[i]) for rel, data in src.items()}

    def job(i, target, size=False):
        def go():
            pc = fs.run_corpus(cfgs[i], root, target, extensions='|'.join(exts) if exts else None, suppress=case['suppress'])
            d = fs.describe(pc)
            if size:
                d['size'] = pc.get_corpus_size()
            return d
        return go

    def finished(d, i, what):
        w = want(i)
        fs.diff_trees(fs.snapshot(d['path']), w, what)
        listed = sorted(os.path.relpath(os.fsencode(f), os.fsencode(d['path'])) for f in d['files'])
        require(listed == sorted(w), what + ': get_file_iterator lists %r' % listed)

    allowed = set(want(0).values()) | set(want(1).values())
    clean = os.path.join(base, 'clean')
    os.makedirs(clean)
    a = Attempt(job(0, clean), ncpu=ncpu)
    finished(fs.must(a.outcome, 'an undisturbed run'), 0, 'an undisturbed run')
    total = a.ops
    wipe(clean)
    fs.reset_home()

    hits = []
    labels = []
    changes = 0
    done_after = False
    for n, c in enumerate(case['crashes']):
        i = 1 if c['other'] else 0
        a = Attempt(job(i, out), at=point(c['at'], total), mode=c['mode'], err=c['err'], ncpu=ncpu)
        what = 'attempt %d of %s (%s, %d of about %d)' % (n + 1, cfgs[i], c['mode'], point(c['at'], total), total)
        if a.fired:
            what += ', hit at the ' + a.where()
        hung = a.outcome.status == 'hung'
        require(not hung, what + ': never ends', a.outcome.text)
        if a.outcome.status == 'ok':
            finished(a.outcome.value, i, what)
        elif not a.fired:
            require(False, what + ': ended with %s although nothing happened' % a.outcome.status, a.outcome.text)
        else:
            hits.append((c['mode'], a.kind))
            labels.append('hit:%s %s' % (c['mode'], a.kind))
        no_torn_output(out, allowed, what)
        if c['change'] and a.fired:
            changes += 1
            f = selected(root, None)
            if f:
                name = sorted(f)[c['at'] % len(f)]
                with open(os.path.join(os.fsencode(root), name), 'wb') as o:
                    o.write(c['data'].encode())
                fs.set_times(root, T0 + 60 * changes)
                allowed |= set(want(0).values()) | set(want(1).values())
                labels.append('changed after the crash')
    what = 'run after %d interruption(s) %r' % (len(hits), hits)
    d = fs.must(fs.isolated(job(0, out, size=True), ncpu=ncpu), what)
    finished(d, 0, what)
    tokens = sum(len(fs.prep_tokens(v)) for v in want(0).values())
    require(d['size'] == tokens, what + ': get_corpus_size() is %r, the corpus has %d tokens' % (d['size'], tokens))
    d2 = fs.must(fs.isolated(job(0, out), ncpu=1), what + ', once more')
    finished(d2, 0, what + ', once more')
    require(d2['path'] == d['path'], what + ': the result moved')
    nonempty = bool(want(0))
    wipe(base)
    return {'nontrivial': bool(hits) and nonempty, 'labels': labels + ['interruptions:%d' % len(hits), 'processes:%d' % ncpu]}
