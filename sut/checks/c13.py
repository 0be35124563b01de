"""persisted BPE artefacts and cached words"""
import os

import ref
from common import fresh, require, sut, sut_exc, wipe
from checks.c10 import merge_list


def run(case):
    return {'artifacts': run_artifacts, 'cache': run_cache, 'lists': run_lists}[case['kind']](case)


def run_artifacts(case):
    from codeprep.bpepkg.merge import Merge, MergeList, read_merges, dump_merges
    from codeprep.bpepkg.cache import read_bpe_cache, dump_bpe_cache
    from codeprep.util import to_literal_str, to_non_literal_str
    d = fresh('art')
    pairs = []
    for a, b in case['pairs']:
        if (a, b) not in pairs:
            pairs.append((a, b))
    pairs += [p for p in ((chr(0x61 + i % 26), chr(0xc0 + i)) for i in range(case.get('many', 0))) if p not in pairs]
    freqs = [f or None for f in case['freqs']]
    ml = MergeList()
    for i, p in enumerate(pairs):
        ml.append(Merge(p, freq=freqs[i % len(freqs)], priority=i))
    path = os.path.join(d, 'merges.txt')
    sut(dump_merges, ml, path)
    back = sut(read_merges, path)
    require(back == ml and list(back) == list(ml), 'dump_merges/read_merges: %r read back as %r' % (ml, back))
    for n in case['firsts']:
        n = len(pairs) if n == 'all' else n
        if n < 1:
            continue
        part = sut(read_merges, path, n)
        require(list(part) == list(ml)[:n], 'read_merges(first %d) of %r gives %r' % (n, ml, part))
    cache = {k: v for k, v in case['cache']}
    path = os.path.join(d, 'cache')
    sut(dump_bpe_cache, cache, path)
    back = sut(read_bpe_cache, path)
    require(back == cache, 'dump_bpe_cache/read_bpe_cache: %r read back as %r' % (cache, back))
    for s in case['texts']:
        lit = sut(to_literal_str, s)
        require(lit.isascii() and '\n' not in lit and '\t' not in lit and '\r' not in lit,
                'literal form of %r is %r' % (s, lit))
        require(lit.count(' ') == s.count(' '), 'literal form of %r has other spaces: %r' % (s, lit))
        b = sut(to_non_literal_str, lit)
        require(b == s, 'literal form of %r is %r, which reads back as %r' % (s, lit, b))
    wipe(d)
    odd = any(not (''.join(p)).isascii() or any(c < ' ' or c == '\\' for c in ''.join(p)) for p in pairs)
    return {'nontrivial': len(pairs) >= 2 and len(cache) >= 1, 'labels': ['artifacts'] + (['odd characters'] if odd else [])}


def run_cache(case):
    from codeprep.bpepkg.bpe_encode import BpeData, get_bpe_subwords
    from codeprep.bpepkg.bpe_learn import do_merges, create_bpe_cache
    from codeprep.bpepkg.cache import read_bpe_cache, dump_bpe_cache
    from codeprep.bpepkg.merge import read_merges, dump_merges
    words = {w: f for w, f in case['words']}
    vocab = {' '.join(ref.bpe_symbols(w)): f for w, f in words.items()}
    out, merges = sut(do_merges, vocab, case['n'])
    cache = sut(create_bpe_cache, out)
    if case['persist']:
        d = fresh('bpecache')
        sut(dump_bpe_cache, cache, os.path.join(d, 'c'))
        sut(dump_merges, merges, os.path.join(d, 'm'))
        cache = sut(read_bpe_cache, os.path.join(d, 'c'))
        merges = sut(read_merges, os.path.join(d, 'm'))
        wipe(d)
    data = BpeData(cache, merges)
    plain = BpeData({}, merges)
    ranks = {m.pair: i for i, m in enumerate(merges)}
    known = list(words)
    hits = 0
    for k in case['lookups']:
        w = known[k % len(known)] if k < 12 else case['others'][k % len(case['others'])] if case['others'] else known[0]
        hits += w in words
        want = ref.bpe_subwords(w, ranks)
        got = sut(get_bpe_subwords, w, data)
        require(got == want, 'lookup of %r with the cache gives %r, encoding it gives %r' % (w, got, want),
                'words %r, %d merges, lookups so far %r' % (words, case['n'], case['lookups']))
        if case['mutate'] and got:       # what a caller does with its result must not matter
            got.append('x')
        got = sut(get_bpe_subwords, w, plain)
        require(got == want, 'lookup of %r without cache gives %r, expected %r' % (w, got, want))
    return {'nontrivial': len(ranks) >= 2 and hits >= 2, 'labels': ['cache'] + (['from disk'] if case['persist'] else [])}


def run_lists(case):
    """merge lists put together by appending and adding, against plain lists"""
    from codeprep.bpepkg.merge import Merge, MergeList
    lists = [(MergeList(), []) for _ in range(2)]
    done = set()
    for i in range(case.get('many', 0)):      # one list that is long from the start
        lists[0][0].append(Merge(('z', chr(0x100 + i)), freq=i + 1))
        lists[0][1].append((('z', chr(0x100 + i)), i + 1))
    what = '%s merge lists after %r' % (case.get('many', 0), case['ops'])
    for op in case['ops']:
        k = op['k'] % len(lists)
        ml, model = lists[k]
        pair = tuple(op['pair'])
        if op['op'] == 'append' and pair not in [p for p, f in model]:
            m = Merge(pair, freq=op['freq']) if op['free'] else Merge(pair, freq=op['freq'], priority=len(model))
            require(sut(ml.append, m) is ml, what + ': append returns something else')
            model.append((pair, op['freq']))
            done.add('append')
        elif op['op'] == 'wrong':
            v, e = sut_exc(ml.append, Merge(('x', 'y'), freq=1, priority=len(model) + op['by']))
            require(isinstance(e, ValueError), what + ': a merge of the wrong priority is accepted: %r' % (e or v))
        elif op['op'] == 'add':
            other, omodel = lists[op['other'] % len(lists)]
            if {p for p, f in model} & {p for p, f in omodel}:
                continue
            lists.append((sut(lambda: ml + other), model + omodel))
            done.add('add')
        for l, want in lists:
            got = [(m.pair, m.freq, m.priority) for m in l]
            expect = [(p, f, i) for i, (p, f) in enumerate(want)]
            require(got == expect and len(l) == len(want), what + ': %r instead of %r' % (got, expect))
    for l, want in lists:
        for i, (p, f) in enumerate(want):
            require(p in l and sut(l.get_priority, p) == i and l[i].pair == p and l[i - len(want)] == l[i], what + ': lookups of %r' % (p,))
        a, b = sorted(case['cut'])
        require([m.pair for m in l[a:b]] == [p for p, f in want[a:b]], what + ': slice %d:%d' % (a, b))
        require(('not', 'there') not in l, what + ': contains a pair it has not')
    for x, wx in lists:
        for y, wy in lists:
            require((x == y) == (wx == wy), what + ': %r == %r' % (x, y))
    return {'nontrivial': len(done) == 2 and max(len(w) for _, w in lists) >= 3, 'labels': ['merge lists']}
