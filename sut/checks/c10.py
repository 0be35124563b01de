import os
import random

import ref
from common import REPO, require, sut, group, strip_end, short
from checks._text import expect, run_mode, mode_label

_ranks = {}


def ranks_of(name):
    if name not in _ranks:
        _ranks[name] = ref.read_ranks(os.path.join(REPO, 'codeprep/data/bpe/case', name, 'merges.txt'))
    return _ranks[name]


def merge_list(pairs):
    from codeprep.bpepkg.merge import Merge, MergeList
    ml = MergeList()
    for a, b in pairs:
        ml.append(Merge((a, b)))
    return ml


def varied(case):
    """a long word with many different merges, made from few numbers"""
    rng = random.Random(case['seed'])
    rest = {k: v for k, v in case.items() if k not in ('varied', 'seed')}
    if case['kind'] == 'api':
        syllables = ['get', 'value', 'in', 'to', 'str', 'name', 'al', 'x', 'er', 'ing', 'pro', 'file', 'un', 'q', '7', '_', 'Z', 'Ab', 'node']
        long = ''.join(rng.choice(syllables) for _ in range(case['varied']))
        return dict(rest, text=case['text'].replace('LONG', 'a' + long))
    word = [chr(0x4e00 + i) for i in range(case['varied'])]
    cur, merges = list(word), []
    while len(cur) > 1 and len(merges) < 2 * len(word):
        share = rng.choice([0.2, 0.6, 1])
        new, i = [], 0
        while i < len(cur):
            if i + 1 < len(cur) and rng.random() < share:
                merges.append([cur[i], cur[i + 1]])
                new.append(cur[i] + cur[i + 1])
                i += 2
            else:
                new.append(cur[i])
                i += 1
        cur = new
        if rng.random() < 0.1:
            break
    if rng.random() < 0.5:
        rng.shuffle(merges)
    return dict(rest, merges=merges, word=''.join(word))


def run(case):
    if 'varied' in case:
        res = run(varied(case))
        return dict(res, labels=res['labels'] + ['many different merges'])
    if 'parts' in case:     # a long word, written as repeated units
        long = ''.join(unit * n for unit, n in case['parts'])
        case = dict(case, word=long) if case['kind'] == 'word' else dict(case, text=case['text'].replace('LONG', long))
        res = run(dict({k: v for k, v in case.items() if k != 'parts'}))
        return dict(res, labels=res['labels'] + ['longer than 5000'] * (len(long) > 5000))
    if case['kind'] == 'word':
        return run_word(case)
    return run_api(case)


def run_word(case):
    from codeprep.bpepkg.bpe_encode import encode_word, get_bpe_subwords, escape, unescape, BpeData
    pairs = [tuple(p) for p in case['merges']]
    ranks = {p: i for i, p in enumerate(pairs)}
    word = case['word']
    ml = sut(merge_list, pairs)
    want = ref.bpe_merge(ref.bpe_symbols(word), ranks)
    escaped = sut(escape, word, merged=True)
    require(escaped == ''.join(ref.bpe_symbols(word)), 'escape(%r) = %r' % (word, escaped))
    got = sut(encode_word, escaped, ml)
    require(got == want, 'encode_word(%s) with merges %r: got %s, step-by-step BPE gives %s'
            % (short(escaped), pairs, short(got), short(want)))
    back = sut(unescape, list(got))
    require(back == ref.bpe_unescape(want), 'unescape(%s) = %s' % (short(got), short(back)))
    require(''.join(back) == word, 'the subwords %s do not spell %s' % (short(back), short(word)))
    for _ in range(2):
        subs = sut(get_bpe_subwords, word, BpeData({}, ml))
        require(subs == back, 'get_bpe_subwords(%s) = %s, expected %s' % (short(word), short(subs), short(back)))
    n = len(ref.bpe_symbols(word))
    return {'nontrivial': len(want) <= n - 2 and len(set(want)) >= 1,
            'labels': ['word'] + (['repeats'] if any(word.count(c) > 2 for c in set(word)) else []) +
                      (['with @'] if '@' in word else []) + (['fully merged'] if len(want) == 1 else [])}


def run_api(case):
    mode = case['mode']
    ranks = ranks_of('0' if mode == 'chars' else case['bpe'])
    exp = expect(case, mode)
    tokens, md = run_mode(case, mode)
    got = [strip_end(g) for g in group(tokens, md)]
    where = '%s(%s, %r, %r)' % (mode if mode == 'chars' else 'bpe[%s]' % case['bpe'], short(case['text']), case['ext'], case['opts'])
    require(len(got) == len(exp), where + ': %d full tokens, expected %d' % (len(got), len(exp)))
    split = 0
    for g, f in zip(got, exp):
        want = ref.bpe_subwords(f.text, ranks) if f.splittable else f.subs
        if f.splittable:
            split += len(want) > 1
        if f.cls == 'num' and ' ' in f.text:      # a lexer put a blank into a number: not defined how that is split
            g, want = [''.join(g)], [f.text.replace(' ', '')]
        require(g == want, where + ': %s is encoded as %s, expected %s' % (short(f.text), short(g), short(want)))
    return {'nontrivial': split >= 2, 'labels': ['api', mode_label(case)]}
