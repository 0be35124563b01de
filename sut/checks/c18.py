"""the vocabulary is the exact count of the tokens of the preprocessed corpus; so is the corpus size"""
import os
from collections import Counter

from common import fresh, require, sut, wipe, SCRATCH
import fsutil as fs


def unescape(t):
    return t.encode('ascii').decode('unicode-escape')


def expected_counts(preps):
    c = Counter()
    for data in preps:
        c.update(unescape(t) for t in fs.prep_tokens(data))
    return c


def vocab_dirs():
    """directories below the user's configuration in which a vocabulary has been written"""
    for d, _, files in os.walk(os.environ['HOME']):
        if 'vocab' in files and 'vocabsize' in files:
            yield d


def read_vocab_file(path):
    with open(path, encoding='utf-8', newline='\n') as f:
        lines = f.read().split('\n')
    require(lines[-1] == '', 'the vocabulary file does not end with a line break')
    res = []
    for l in lines[:-1]:
        w, _, n = l.rpartition('\t')
        res.append((unescape(w), int(n)))
    return res


def check_vocab(pairs, loaded, size, want, what):
    require(len(pairs) == len({w for w, _ in pairs}), what + ': a word is listed twice in the vocabulary')
    got = dict(pairs)
    if got != want:
        diff = {w: (got.get(w), want.get(w)) for w in set(got) | set(want) if got.get(w) != want.get(w)}
        require(False, what + ': wrong vocabulary; word: (count in the vocabulary, in the corpus)', diff)
    require(dict(loaded) == dict(want), what + ': load_vocab() differs from the corpus', loaded, want)
    freqs = [n for _, n in pairs]
    require(freqs == sorted(freqs, reverse=True), what + ': the vocabulary is not ordered by descending count', pairs)
    require(size == len(want), what + ': vocabsize is %r, the corpus has %d different tokens' % (size, len(want)))


def read_stats(path):
    """-> the size, and [[part of the files, size of the vocabulary, number of non-English words]]"""
    with open(path) as f:
        size = int(f.readline())
        return size, [[float(p), int(v), int(n)] for p, v, n in (l.split() for l in f)]


def read_results(pc):
    """in the child: what the user sees"""
    vf = pc.path_to_vocab
    size, stats = read_stats(os.path.join(os.path.dirname(vf), 'vocabsize'))
    return {'pairs': read_vocab_file(vf), 'loaded': pc.load_vocab(), 'size': size, 'stats': stats}


def check_stats(stats, want, preps, what):
    """preps: the files, if every file has a partial vocabulary of its own"""
    require(stats and stats[-1] == [1.0, len(want), want.get('<non-en>', 0)], what + ': the statistics end with %r, expected %r' % (
        stats[-1:], [1.0, len(want), want.get('<non-en>', 0)]))
    require([s[0] for s in stats] == sorted({s[0] for s in stats}), what + ': the statistics are not ordered', stats)
    if preps:
        sizes = [len(expected_counts([p])) for p in preps]
        first = [round(1 / len(sizes), 4), int(sum(sizes) / len(sizes))]
        require(stats[0][:2] == first, what + ': the statistics begin with %r, the files have %r different tokens' % (stats[0], sizes))


def run_limit(case):
    from codeprep.pipeline.vocab import PartialVocab
    counts = dict((w, n) for w, n in case['counts'])
    limit = case['limit']
    d = fresh('c18')
    vocab = sut(PartialVocab, Counter(counts), 0)
    sut(vocab.limit_max_vocab, limit)
    sut(vocab.write_vocab, os.path.join(d, 'vocab'))
    with open(os.path.join(d, 'vocab'), encoding='utf-8') as f:
        pairs = [(w, int(n)) for w, _, n in (l.rstrip('\n').rpartition('\t') for l in f)]
    wipe(d)
    freqs = sorted(counts.values(), reverse=True)
    left_out = freqs[limit] if limit < len(freqs) else 0
    want = {w: n for w, n in counts.items() if n > left_out}
    require(dict(pairs) == want and len(pairs) == len(want), 'the vocabulary %r limited to %d words is %r' % (counts, limit, pairs))
    require([n for _, n in pairs] == sorted(want.values(), reverse=True), 'a limited vocabulary is not ordered by descending count', pairs)
    return {'nontrivial': 0 < len(want) < len(counts), 'labels': ['limited vocabulary']}


def run(case):
    if 'limit' in case:
        return run_limit(case)
    fs.reset_home()
    base = fresh('c18')
    root = os.path.join(base, 'proj')
    os.makedirs(root)
    cfg = case['cfg']
    src = fs.plant(root, case['files'])
    if not src:
        src = fs.plant(root, [{'path': ['a.java'], 'data': 'x = 1;\n'}])
    preps = {rel + b'.prep': fs.expected_prep(data, rel, cfg) for rel, data in src.items()}
    want = dict(expected_counts(preps.values()))
    total = sum(want.values())
    out = os.path.join(base, 'out')
    os.makedirs(out)
    chunks, groups = case['chunks'], case['groups']

    def before():
        import codeprep.pipeline.vocab as V
        if chunks and hasattr(V, 'N_CHUNKS'):
            V.N_CHUNKS = chunks
        if groups and hasattr(V, 'MAX_INIT_PARTIAL_VOCABS'):
            V.MAX_INIT_PARTIAL_VOCABS = groups

    def go():
        pc = fs.run_corpus(cfg, root, out, calc_vocab=True)
        r = read_results(pc)
        r['sizes'] = [pc.get_corpus_size(), pc.get_corpus_size()]
        return r
    what = '%s, %d files, %d processes, %s chunks, %s groups' % (cfg, len(src), case['ncpu'], chunks, groups)
    r = fs.must(fs.isolated(go, ncpu=case['ncpu'], before=before), what)
    check_vocab([tuple(p) for p in r['pairs']], r['loaded'], r['size'], want, what)
    check_stats(r['stats'], want, None if groups else preps.values(), what)
    require(r['sizes'] == [total, total], what + ': get_corpus_size() = %r, the corpus has %d tokens' % (r['sizes'], total))
    fs.diff_trees(fs.snapshot(os.path.join(out, os.listdir(out)[0])) if len(os.listdir(out)) == 1 else
                  fs.snapshot([os.path.join(out, d) for d in os.listdir(out) if os.path.isdir(os.path.join(out, d))][0]), preps, what)
    if case['again']:
        def go2():
            pc = fs.run_corpus(cfg, root, out, calc_vocab=True)
            r2 = read_results(pc)
            r2['sizes'] = [pc.get_corpus_size()]
            return r2
        r2 = fs.must(fs.isolated(go2, ncpu=1), what + ', run again')
        check_vocab([tuple(p) for p in r2['pairs']], r2['loaded'], r2['size'], want, what + ', run again')
        require(r2['sizes'] == [total], what + ': get_corpus_size() = %r when run again' % (r2['sizes'],))
    if case.get('tool'):
        def go3():
            import runpy
            import sys
            [prep] = [os.path.join(out, d) for d in os.listdir(out) if os.path.isdir(os.path.join(out, d))]
            sys.argv = ['vocab', prep, os.path.join(base, 'tool'), 'prep']
            runpy.run_module('codeprep.cli.vocab', run_name='__main__')
            size, stats = read_stats(os.path.join(base, 'tool', 'vocabsize'))
            return {'pairs': read_vocab_file(os.path.join(base, 'tool', 'vocab')), 'size': size}
        r3 = fs.must(fs.isolated(go3, ncpu=case['ncpu'], before=before), what + ', codeprep.cli.vocab')
        check_vocab([tuple(p) for p in r3['pairs']], want, r3['size'], want, what + ', codeprep.cli.vocab')
    wipe(base)
    return {'nontrivial': len(src) >= 2 and any(v > 2 for v in want.values()),
            'labels': [fs.cfg_label(cfg), 'files:%d' % min(len(src), 12), 'processes:%d' % case['ncpu']] +
            (['several files per partial vocabulary'] if groups and len(src) > groups else []) + (['run again'] if case['again'] else []) + (['command-line tool'] if case.get('tool') else [])}
