"""learn-bpe on a corpus, step by step, and the use of the learned codes"""
import os

import ref
from common import Skip, fresh, require, wipe, strip_end, group, short
import fsutil as fs
import learn
from checks._text import expect, run_mode
from checks.c18 import expected_counts


def segment(word, L, k, ranks):
    if word in L.never:
        return [word]
    return ref.bpe_subwords(word, ranks)


def to_vocab_form(token):
    """token of a preprocessed corpus -> entry of the learned subword vocabulary"""
    if token.endswith('</t>'):
        return token[:-4].replace('@', '@@') + '@'
    return token.replace('@', '@@')


def run(case):
    fs.reset_home()
    base = fresh('c20')
    name = case['name']
    root = os.path.join(base, name)
    os.makedirs(root)
    fs.plant(root, case['files'])
    fs.set_times(root, 1300000000)
    exts, nou = case['exts'], case['no_unicode']
    L = learn.Learned(root, exts, nou)
    if not L.start:
        fs.plant(root, [{'path': ['zz.' + (exts[0] if exts else 'java')], 'data': 'lala lala_x lalala\n'}])
        fs.set_times(root, 1300000000)
        L = learn.Learned(root, exts, nou)
    if '' in L.counts:
        raise Skip('a keyword with several spaces inside')
    codes_id = case['id'] or name + ('_nounicode' if nou else '')
    labels = set()
    ncpu = case['ncpu']
    for i, n in enumerate(case['ns']):
        what = 'learn-bpe %d (after %r) on %d tokens' % (n, sorted(L.lists), sum(L.counts.values()))

        def go():
            learn.run_command(learn.learn_command(root, n, exts, nou, case['id'] if i == 0 or case['same_id'] else None))
            from codeprep.pipeline import bperegistry as R, vocabloader as V
            s = learn.state_of(codes_id)
            m = R.get_max_merges(R.get_dataset_bpe_dir(codes_id), limit=n)
            return {'state': s, 'm': m, 'merges': learn.list_of(codes_id, m), 'vocab': V.bpe(codes_id, m)}
        r = fs.must(fs.isolated(go, ncpu=ncpu), what)
        before = set(L.lists)
        want = L.learned(n, r['state'], r['m'], r['merges'], what)
        require(r['vocab'] == want, what + ': vocabloader.bpe() is not the count of the subwords', learn.diff(r['vocab'], want))
        require(r['state']['max'] == max(L.lists), what + ': the largest list has %r merges, expected %d' % (
            r['state']['max'], max(L.lists)))
        if r['m'] < n:
            labels.add('fewer merges than asked for')
        if any(x < r['m'] for x in before) and r['m'] not in before:
            labels.add('continued from a shorter list')
        if any(x > n for x in before):
            labels.add('shorter than a list learned before')
    top = max(L.lists)
    for use in case['uses']:
        k = 1 + use['k'] % (top + 3)
        tcase = {'text': use['text'], 'ext': use['ext'], 'mode': 'bpe', 'bpe': '%s-%d' % (codes_id, k), 'opts': use['opts']}
        what = 'bpe(%r, %r) with lists of %r merges' % (use['text'], tcase['bpe'], sorted(L.lists))
        if k > top:
            def over():
                from codeprep.pipeline.bperegistry import InvalidBpeCodesIdError
                import codeprep.api.text as T
                try:
                    return ['tokens', T.bpe(use['text'], tcase['bpe'], use['ext'])]
                except InvalidBpeCodesIdError:
                    return ['refused', None]
            got = fs.must(fs.isolated(over, ncpu=1), what)
            require(got[0] == 'refused', what + ': more merges than learned are not refused', got)
            labels.add('too many merges')
            continue
        ranks = L.ranks(k)
        exp = expect(tcase, 'bpe')

        def encode():
            tokens, md = run_mode(tcase, 'bpe')
            return [strip_end(g) for g in group(tokens, md)]
        got = fs.must(fs.isolated(encode, ncpu=1), what)
        require(len(got) == len(exp), what + ': %d full tokens, expected %d' % (len(got), len(exp)))
        for g, f in zip(got, exp):
            want = segment(f.text, L, k, ranks) if f.splittable else f.subs
            require(g == want, what + ': %r is encoded as %r, expected %r' % (f.text, g, want))
            if f.splittable and f.text in L.never:
                labels.add('never-split word in another place')
        labels.add('used' + (' from a longer list' if k not in L.lists else ''))
    if case['corpus']:
        # the training corpus preprocessed with the learned codes: its counts are the learned subword vocabulary
        out = os.path.join(base, 'out')
        os.makedirs(out)
        cfg = {'mode': 'bpe', 'bpe': '%s-%d' % (codes_id, top), 'opts': {'no_com': True, 'max_str_length': 14}}

        def corpus():
            from codeprep.pipeline import vocabloader as V
            pc = fs.run_corpus(cfg, root, out, extensions='|'.join(exts) if exts else None)
            return {'tree': {os.fsdecode(k): v.decode('latin-1') for k, v in fs.snapshot(pc.path_to_prep_dataset).items()},
                    'vocab': V.bpe(codes_id, top)}
        what = 'the training corpus with %r' % cfg
        r = fs.must(fs.isolated(corpus, ncpu=ncpu), what)
        # (long strings are one token in one of the modes, two quotes in the other; the numbers 0 and 1 are never encoded)
        if not nou and not any(w in L.counts for w in ('""', '0', '1')):
            labels.add('training corpus compared')
            got = {}
            for w, f in expected_counts(v.encode('latin-1') for v in r['tree'].values()).items():
                w = to_vocab_form(w)
                got[w] = got.get(w, 0) + f
            require(got == r['vocab'], what + ': its counts differ from the learned vocabulary; subword: (in the corpus, learned)',
                    learn.diff(got, r['vocab']))
        labels.add('training corpus encoded')
    wipe(base)
    return {'nontrivial': top >= 4 and len(L.start) >= 3, 'labels': sorted(labels) + ['lists:%d' % len(L.lists)]}
