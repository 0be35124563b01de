"""a vocabulary calculation that is killed at any point resumes to exactly the counts of the corpus"""
import os

from common import fresh, require, wipe
from crash import Attempt, point
import fsutil as fs
from checks.c18 import expected_counts, check_vocab, read_results, read_vocab_file, vocab_dirs


def final_vocabs(want, what):
    """a vocabulary that carries its final name is complete"""
    for d in vocab_dirs_partial():
        try:
            pairs = read_vocab_file(os.path.join(d, 'vocab'))
        except ValueError:
            pairs = None
        require(pairs is not None and dict(pairs) == want, what + ': an incomplete vocabulary under its final name', pairs, want)


def vocab_dirs_partial():
    for d, _, files in os.walk(os.environ['HOME']):
        if 'vocab' in files:
            yield d


def run(case):
    fs.reset_home()
    base = fresh('c19')
    root = os.path.join(base, 'proj')
    out = os.path.join(base, 'out')
    os.makedirs(root)
    os.makedirs(out)
    cfg, chunks, groups = case['cfg'], case['chunks'], case['groups']
    src = fs.plant(root, case['files'])
    fs.set_times(root, 1200000000)
    preps = {rel + b'.prep': fs.expected_prep(data, rel, cfg) for rel, data in src.items()}
    want = dict(expected_counts(preps.values()))
    tokens = sum(want.values())

    def before():
        import codeprep.pipeline.vocab as V
        if chunks and hasattr(V, 'N_CHUNKS'):
            V.N_CHUNKS = chunks
        if groups and hasattr(V, 'MAX_INIT_PARTIAL_VOCABS'):
            V.MAX_INIT_PARTIAL_VOCABS = groups

    def job(target, vocab=True):
        def go():
            pc = fs.run_corpus(cfg, root, target, calc_vocab=vocab)
            if not vocab:
                return None
            r = read_results(pc)
            r['corpus'] = pc.get_corpus_size()
            return r
        return go

    def right(r, what):
        check_vocab([tuple(p) for p in r['pairs']], r['loaded'], r['size'], want, what)
        require(r['corpus'] == tokens, what + ': get_corpus_size() is %r, the corpus has %d tokens' % (r['corpus'], tokens))

    clean = os.path.join(base, 'clean')
    os.makedirs(clean)
    if case['prepared']:
        fs.must(fs.isolated(job(clean, False), ncpu=1), 'preprocessing')
    a = Attempt(job(clean), ncpu=case['ncpu'], before=before)
    right(fs.must(a.outcome, 'an undisturbed run'), 'an undisturbed run')
    total = a.ops
    wipe(clean)
    fs.reset_home()
    if case['prepared']:
        fs.must(fs.isolated(job(out, False), ncpu=1), 'preprocessing')
    hits, labels = [], []
    for n, c in enumerate(case['crashes']):
        a = Attempt(job(out), at=point(c['at'], total), mode=c['mode'], ncpu=case['ncpu'], before=before)
        what = '%s, attempt %d (%s, %d of about %d)' % (cfg, n + 1, c['mode'], point(c['at'], total), total)
        if a.fired:
            what += ', hit at the ' + a.where()
        require(a.outcome.status != 'hung', what + ': never ends', a.outcome.text)
        if a.outcome.status == 'ok':
            right(a.outcome.value, what)
        elif not a.fired:
            require(False, what + ': ended with %s although nothing happened' % a.outcome.status, a.outcome.text)
        else:
            hits.append('%s %s %s' % (c['mode'], a.kind, os.path.basename(os.fsdecode(a.path))[-30:]))
            stage = 'vocabulary' if b'vocab' in a.path else 'corpus size' if b'size' in a.path else 'other file'
            labels.append('hit:%s %s, %s' % (c['mode'], a.kind, stage))
        final_vocabs(want, what)
    what = '%s, run after %d crash(es) %r' % (cfg, len(hits), hits)
    right(fs.must(fs.isolated(job(out), ncpu=case['ncpu'], before=before), what), what)
    wipe(base)
    return {'nontrivial': bool(hits) and len(src) >= 2,
            'labels': labels + ['interruptions:%d' % len(hits), 'processes:%d' % case['ncpu']]}
