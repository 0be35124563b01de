"""learning of BPE merges: every step merges a most frequent pair; segmentation equals encoding with the learned merges"""
from collections import Counter

import ref
from common import require, sut, sut_exc


def pair_counts(vocab):
    c = Counter()
    for symbols, f in vocab:
        for p in zip(symbols, symbols[1:]):
            c[p] += f
    return c


def follow(vocab, merges, what):
    """replay the learned merges on `vocab` ([(symbols, freq)]) step by step"""
    cur = vocab
    for i, m in enumerate(merges):
        c = pair_counts(cur)
        top = max(c.values()) if c else None
        require(c.get(m.pair) is not None, '%s: merge %d, %r, is not an adjacent pair at that point' % (what, i, m.pair), cur)
        require(c[m.pair] == top, '%s: merge %d, %r, occurs %d times but the most frequent pair occurs %d times' % (
            what, i, m.pair, c[m.pair], top), c.most_common(4), cur)
        require(m.freq == c[m.pair], '%s: merge %d, %r, is recorded with frequency %r but occurs %d times' % (
            what, i, m.pair, m.freq, c[m.pair]), cur)
        require(m.priority == i, '%s: merge %d has priority %r' % (what, i, m.priority))
        cur = [(ref.bpe_merge(s, {m.pair: 0}), f) for s, f in cur]
    return cur


def run(case):
    return run_counter(case) if case.get('kind') == 'counter' else run_learning(case)


def run_counter(case):
    """the counter of pairs: pops a most frequent pair with its exact count, after any history"""
    from codeprep.util import PriorityCounter
    model = {k: v for k, v in case['start']}
    auto = case['auto']
    tick = len(model)
    if auto:
        pc = sut(PriorityCounter, dict(model))
    else:
        pc = sut(PriorityCounter, {k: (v, i) for i, (k, v) in enumerate(model.items())}, automatic_count=False)
    pops = 0
    what = 'counter of %r after %r' % (case['start'], case['ops'])
    for op in case['ops'] + [{'op': 'pop'}] * (len(model) + len(case['ops']) + 1):
        if op['op'] == 'add':
            tick += 1
            sut(pc.add, op['key'], op['n'], *([] if auto else [tick]))
            model[op['key']] = model.get(op['key'], 0) + op['n']
            if model[op['key']] == 0:
                del model[op['key']]
        elif op['op'] == 'remove':
            if op['key'] in model:
                sut(pc.remove_task, op['key'])
                del model[op['key']]
        else:
            got, e = sut_exc(pc.pop_pair)
            if not model:
                require(isinstance(e, KeyError), what + ': an empty counter gives %r' % (e or got,))
                continue
            require(e is None, what + ': %r although %r are left' % (e, model))
            require(got[0] in model and model[got[0]] == got[1] == max(model.values()), what + ': pops %r, counts %r' % (got, model))
            del model[got[0]]
            pops += 1
    return {'nontrivial': pops >= 2 and len(case['ops']) >= 3, 'labels': ['counter']}


def run_learning(case):
    from codeprep.bpepkg.bpe_learn import do_merges, create_resulting_vocab, create_bpe_cache
    from codeprep.bpepkg.bpe_encode import encode_word
    words = {w: f for w, f in case['words']}
    n = case['n']
    start = [(ref.bpe_symbols(w), f) for w, f in words.items()]
    vocab = {' '.join(s): f for s, f in start}
    before = dict(vocab)
    what = 'do_merges(%r, %d)' % (vocab, n)
    out, merges = sut(do_merges, vocab, n)
    require(vocab == before, what + ': the input vocabulary was changed', vocab)
    learned = list(merges)
    require(len(merges) == len(learned) <= n, '%s: %d merges' % (what, len(learned)))
    end = follow(start, learned, what)
    want = {' '.join(s): f for s, f in end}
    require(out == want, what + ': the resulting segmentation is not that of the learned merges', out, want, learned)
    if len(learned) < n:
        require(not pair_counts(end), what + ': stopped after %d merges although pairs are left' % len(learned), end)
    for w in words:
        got = sut(encode_word, ''.join(ref.bpe_symbols(w)), merges)
        require(' '.join(got) in out and ''.join(got) == ''.join(ref.bpe_symbols(w)),
                what + ': encoding %r with the learned merges gives %r, learning gave %r' % (w, got, list(out)), learned)
    sub = Counter()
    for s, f in end:
        for x in s:
            sub[x] += f
    res = sut(create_resulting_vocab, out)
    require(dict(res) == dict(sub), what + ': subword frequencies', dict(res), dict(sub))
    cache = sut(create_bpe_cache, out)
    require(dict(cache) == {''.join(s): s for s, f in end}, what + ': cache of segmented words', cache)
    # continuing from the segmented vocabulary
    k = case['split']
    if 0 < k < n:
        out1, m1 = sut(do_merges, dict(before), k)
        out2, m2 = sut(do_merges, dict(out1), n - len(list(m1)))
        mid = follow(start, list(m1), what + ' first part')
        end2 = follow(mid, list(m2), what + ' continued')
        require(out2 == {' '.join(s): f for s, f in end2}, what + ': continued in two steps', out2, end2)
        both = sut(lambda: m1 + m2)
        require([m.pair for m in both] == [m.pair for m in list(m1) + list(m2)] and
                [m.priority for m in both] == list(range(len(both))), what + ': joined merge list', both)
    return {'nontrivial': len(learned) >= 3 and len(words) >= 2,
            'labels': (['exhausted'] if len(learned) < n else []) + (['overlaps'] if any(
                w[i] == w[i + 1] == w[i + 2] for w in words for i in range(len(w) - 2)) else []) +
            (['with @'] if any('@' in w for w in words) else [])}
