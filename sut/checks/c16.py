"""histories of changes to a dataset and of runs: every run's result is that of the current content of the dataset"""
import os
import shutil
import time

from common import fresh, require, wipe, scratch_path
import fsutil as fs
from checks.c15 import selected
from checks.c18 import expected_counts, check_vocab, read_results

BASE = 1100000000


class World(object):
    def __init__(self, case):
        fs.reset_home()
        self.base = fresh('c16')
        self.case = case
        self.root = os.path.join(self.base, 'proj')
        os.makedirs(self.root)
        self.outs = [os.path.join(self.base, 'out%d' % i) for i in range(2)]
        for o in self.outs:
            os.makedirs(o)
        self.t = BASE
        self.tampers = 0
        self.tracked = {}      # path of a finished output -> its content
        self.runs = 0
        self.changes = 0
        self.labels = set()
        fs.plant(self.root, case['files'])
        if case.get('filler'):
            n, dirs = case['filler']
            for i in range(dirs):
                os.makedirs(os.path.join(self.root, 'fill', str(i)))
            for i in range(n):
                open(os.path.join(self.root, 'fill', str(i % dirs), '%d.txt' % i), 'w').close()
        link = os.path.join(self.root, 'lnk')
        if case['linked'] is not None and not os.path.lexists(link):
            d = os.path.join(self.base, 'elsewhere')
            os.makedirs(d)
            fs.plant(d, case['linked'])
            os.symlink(d, link)
            fs.set_times(d, self.t)
        fs.set_times(self.root, self.t)
        self.labels.add('linked directory' if os.path.islink(link) else 'no links')

    # -------------------------------------------------- changes, with the modification times a file system would give

    def stamp(self, path):
        os.utime(path, (self.t, self.t))

    def files(self):
        return sorted(selected(self.root, None))

    def full(self, rel):
        return os.path.join(fs.b(self.root), rel)

    def pick(self, k):
        f = self.files()
        return f[k % len(f)] if f else None

    def ensure_parent(self, rel):
        """-> False if a file is in the way"""
        cur = fs.b(self.root)
        for part in rel.split(b'/')[:-1]:
            nxt = os.path.join(cur, part)
            if not os.path.lexists(nxt):
                os.mkdir(nxt)
                self.stamp(nxt)
                self.stamp(cur)
            elif not os.path.isdir(nxt):
                return False
            cur = nxt
        return True

    def write(self, rel, data, mtime=None):
        p = self.full(rel)
        if os.path.isdir(p) or not self.ensure_parent(rel):
            return False
        new = not os.path.exists(p)
        if mtime is not None and not new:
            return False
        with open(p, 'wb') as f:
            f.write(data)
        m = self.t if mtime is None else mtime
        os.utime(p, (m, m))
        if new:
            self.stamp(os.path.dirname(p))
        return True

    def change(self, op):
        kind = op['op']
        self.t += op.get('dt', 1)
        done = False
        if kind == 'write':
            done = self.write(b'/'.join(fs.b(x) for x in op['path']), fs.encode(op))
        elif kind == 'old':
            done = self.write(b'/'.join(fs.b(x) for x in op['path']), fs.encode(op), mtime=BASE - 1000 * op['k'])
        elif kind == 'edit':
            rel = self.pick(op['k'])
            if rel is not None:
                done = self.write(rel, fs.encode(op))
        elif kind == 'delete':
            rel = self.pick(op['k'])
            if rel is not None:
                os.unlink(self.full(rel))
                self.stamp(os.path.dirname(self.full(rel)))
                done = True
        elif kind == 'rename':
            rel = self.pick(op['k'])
            new = b'/'.join(fs.b(x) for x in op['path'])
            if rel is not None and not os.path.lexists(self.full(new)) and not new.startswith(rel + b'/') and self.ensure_parent(new):
                os.rename(self.full(rel), self.full(new))
                self.stamp(os.path.dirname(self.full(rel)))
                self.stamp(os.path.dirname(self.full(new)))
                done = True
        elif kind == 'rmdir':
            dirs = sorted({os.path.dirname(r) for r in self.files()} - {b''})
            if dirs:
                d = self.full(dirs[op['k'] % len(dirs)])
                if not os.path.islink(d):
                    wipe(d)
                    self.stamp(os.path.dirname(d))
                    done = True
        if done:
            self.changes += 1
            self.labels.add('change:' + kind)

    # -------------------------------------------------- interference with results

    def interfere(self, op):
        kind = op['op']
        self.tampers += 1
        future = int(time.time()) + 1000 * self.tampers
        if kind == 'clearcache':
            wipe(os.path.join(os.environ['HOME'], '.cache'))
            self.labels.add('cache cleared')
        elif kind == 'dropout':
            o = self.outs[op['k'] % len(self.outs)]
            wipe(o)
            os.makedirs(o)
            self.tracked = {p: v for p, v in self.tracked.items() if not p.startswith(o + os.sep)}
            self.labels.add('output directory removed')
        elif kind == 'tampercache':
            top = os.path.join(fs.b(os.environ['HOME']), b'.cache')
            cands = sorted(os.path.join(d, n) for d, _, names in os.walk(top) for n in names
                           if not n.startswith(b'.') and any(x in d.split(b'/') for x in (b'parsed_datasets', b'file_lists')))
            if not cands:
                return
            full = cands[op['k'] // 4 % len(cands)]
            if op['k'] % 4 == 0:
                os.unlink(full)
                os.utime(os.path.dirname(full), (future, future))
            else:
                with open(full, 'rb') as f:
                    lines = f.read().splitlines(True)
                with open(full, 'wb') as f:
                    f.write([b'', b''.join(lines[1:]), b''.join(lines + lines)][op['k'] % 4 - 1])
                os.utime(full, (future, future))
            self.labels.add('cache damaged: ' + os.path.relpath(os.fsdecode(full), os.fsdecode(top)).split('/')[2])
        elif kind in ('tamper', 'delout'):
            cands = sorted((p, f) for p, v in self.tracked.items() for f in v)
            if not cands:
                return
            p, f = cands[op['k'] % len(cands)]
            full = os.path.join(fs.b(p), f)
            del self.tracked[p]
            if kind == 'tamper':
                with open(full, 'ab') as o:
                    o.write(b'tampered with\n')
                os.utime(full, (future, future))
            else:
                os.unlink(full)
                os.utime(os.path.dirname(full), (future, future))
            self.labels.add('output ' + ('altered' if kind == 'tamper' else 'removed'))

    # -------------------------------------------------- runs

    def run(self, op):
        plan = []
        for r in op['runs']:
            cfg = self.case['cfgs'][r['cfg'] % len(self.case['cfgs'])]
            exts = self.case['exts'] if r['exts'] else None
            src = selected(self.root, [e.encode() for e in exts] if exts else None)
            want = {rel + b'.prep': fs.expected_prep(data, rel, cfg) for rel, data in src.items()}
            plan.append((r, cfg, exts, want, bool(r['vocab'] and want)))
        before = self.source_state()
        ncpu = op['ncpu']

        def go():
            res = []
            for r, cfg, exts, want, vocab in plan:
                pc = fs.run_corpus(cfg, self.root, self.outs[r['out'] % len(self.outs)], calc_vocab=vocab,
                                   extensions='|'.join(exts) if exts else None, suppress=r['suppress'])
                d = fs.describe(pc)
                d['contents'] = {os.fsdecode(k): v.decode('latin-1') for k, v in fs.snapshot(pc.path_to_prep_dataset).items()}
                if vocab:
                    d['vocab'] = read_results(pc)
                if r['size']:
                    d['size'] = pc.get_corpus_size()
                res.append(d)
            return res
        what = 'run %d after %d changes' % (self.runs + 1, self.changes)
        res = fs.must(fs.isolated(go, ncpu=ncpu), what)
        self.runs += len(plan)
        require(self.source_state() == before, what + ': the dataset itself was changed')
        for (r, cfg, exts, want, vocab), d in zip(plan, res):
            w = what + ' (%s, extensions %r, out%d)' % (cfg, exts, r['out'] % len(self.outs))
            got = {os.fsencode(k): v.encode('latin-1') for k, v in d['contents'].items()}
            fs.diff_trees(got, want, w)
            listed = sorted(os.path.relpath(os.fsencode(f), os.fsencode(d['path'])) for f in d['files'])
            require(listed == sorted(want), w + ': get_file_iterator lists %r' % listed)
            counts = expected_counts(want.values())
            if vocab:
                v = d['vocab']
                check_vocab([tuple(p) for p in v['pairs']], v['loaded'], v['size'], dict(counts), w)
            if r['size']:
                require(d['size'] == sum(counts.values()), w + ': get_corpus_size() is %r, the corpus has %d tokens' % (
                    d['size'], sum(counts.values())))
            self.tracked[d['path']] = want
        self.check_tracked(what)

    def check_tracked(self, what):
        for p, want in self.tracked.items():
            require(os.path.isdir(p), what + ': an earlier result disappeared: ' + os.path.basename(p))
            fs.diff_trees(fs.snapshot(p), want, what + ': an earlier result, ' + os.path.basename(p))

    def source_state(self):
        s = {}
        for r, data in selected(self.root, None).items():
            s[r] = (data, os.stat(self.full(r)).st_mtime)
        return s


def run(case):
    w = World(case)
    changed_between = 0
    last = 0
    for op in case['ops'] + [{'op': 'run', 'ncpu': 1, 'runs': [{'cfg': 0, 'out': 0, 'exts': bool(case.get('lean')), 'vocab': False,
                                                                 'suppress': False, 'size': False}]}]:
        if op['op'] == 'run':
            if w.changes > last and w.runs:
                changed_between += 1
            last = w.changes
            w.run(op)
        elif op['op'] in ('clearcache', 'dropout', 'tamper', 'delout', 'tampercache'):
            w.interfere(op)
        else:
            w.change(op)
    wipe(w.base)
    return {'nontrivial': w.runs >= 2 and changed_between >= 1,
            'labels': sorted(w.labels) + (['more than 100 files'] if case.get('filler') and sum(case['filler']) > 100 else []) + ['runs:%d' % min(w.runs, 9), 'changed between runs:%d' % min(changed_between, 6)]}


# ------------------------------------------------------------------ known finding

def probe_same_name(case):
    """two datasets with the same directory name and the same modification second"""
    fs.reset_home()
    base = fresh('c16probe')
    outs = []
    for i in '12':
        root = os.path.join(base, 'p' + i, 'proj')
        os.makedirs(root)
        with open(os.path.join(root, 'a.java'), 'w') as f:
            f.write('x%s\n' % i)
        fs.set_times(root, BASE)
    cfg = {'mode': 'nosplit', 'opts': {}}
    for i in '12':
        out = os.path.join(base, 'out' + i)
        os.makedirs(out)

        def go():
            return fs.describe(fs.run_corpus(cfg, os.path.join(base, 'p' + i, 'proj'), out))
        d = fs.must(fs.isolated(go, ncpu=1), 'same name, same time')
        outs.append(fs.snapshot(d['path']))
    wipe(base)
    return outs[0] == outs[1]


def probe_underscore(case):
    """the extensions a and b, and then the extension a_b, on the same dataset"""
    fs.reset_home()
    base = fresh('c16probe')
    root = os.path.join(base, 'proj')
    out = os.path.join(base, 'out')
    os.makedirs(root)
    os.makedirs(out)
    for n in ('x.a', 'y.b', 'z.a_b'):
        with open(os.path.join(root, n), 'w') as f:
            f.write('x\n')
    fs.set_times(root, BASE)
    got = []
    for exts in ('a|b', 'a_b'):
        def go():
            return fs.describe(fs.run_corpus({'mode': 'nosplit', 'opts': {}}, root, out, extensions=exts))
        d = fs.must(fs.isolated(go, ncpu=1), 'extensions %r' % exts)
        got.append(sorted(os.path.basename(f) for f in d['files']))
    wipe(base)
    return got != [['x.a.prep', 'y.b.prep'], ['z.a_b.prep']]


PROBES = {
    'KF2': (probe_same_name, 'two datasets whose directories have the same name and the same time of last modification (to the second) '
                             'share the cached intermediate results, so the second run returns the tokens of the first dataset'),
    'KF3': (probe_underscore, 'the extension a_b and the extensions a and b share the cached list of files of a dataset and the results'),
}


def probes():
    return [{'id': i, 'failing': fn(None), 'case': {'probe': i}, 'what': what} for i, (fn, what) in sorted(PROBES.items())]


_run = run


def run(case):
    if 'probe' in case:
        fn, what = PROBES[case['probe']]
        require(not fn(case), what)
        return {'nontrivial': True}
    return _run(case)
