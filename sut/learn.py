"""learning of custom bpe codes: what the learned artefacts have to be, from the training corpus alone"""
from collections import Counter, namedtuple
import os

import ref
from common import call_text, require
import fsutil as fs
from checks.c11 import follow
from checks.c15 import selected
from checks.c18 import unescape

Merge = namedtuple('Merge', 'pair freq priority')


def symbols(word):
    return tuple(ref.bpe_symbols(word))


def training(root, exts, no_unicode):
    """-> (counts of all tokens of the training corpus, the set of those that are never split)"""
    from codeprep.preprocess.placeholders import placeholders
    opts = {'full_strings': True, 'no_com': True, 'max_str_length': 14}
    if no_unicode:
        opts['no_unicode'] = True
    counts, never = Counter(), set(placeholders.values())
    for rel, data in selected(root, [e.encode() for e in exts] if exts else None).items():
        prep = fs.expected_prep(data, rel, {'mode': 'nosplit', 'opts': opts})
        toks = [unescape(t) for t in fs.prep_tokens(prep)]
        counts.update(toks)
        ext = fs.extension(rel)
        _, md = call_text(fs.decode_source(data), ext, 'nosplit', dict(opts, append_eof=True))
        never |= set(md.nonprocessable_tokens)
        if len(toks) >= 2 and toks[-2] == '\n':
            never.add('\n')
    return counts, never


def start_vocab(counts, never):
    return [(symbols(w), f) for w, f in sorted(counts.items()) if w not in never]


def check_list(merges, n, start, what):
    """a list of at most n merges learned from `start` -> segmented vocabulary"""
    require(len(merges) <= n, what + ': %d merges were learned' % len(merges))
    end = follow(start, merges, what)
    if len(merges) < n:
        require(all(len(s) == 1 for s, f in end), what + ': stopped after %d merges although pairs are left' % len(merges), end)
    return end


def subword_counts(end, counts, never):
    c = Counter()
    for s, f in end:
        for x in s:
            c[x] += f
    for w in never:
        if counts.get(w):
            c[''.join(symbols(w))] += counts[w]
    return dict(c)


def state_of(codes_id):
    """in a child: everything the library tells about a custom id"""
    from codeprep.pipeline import bperegistry as R, vocabloader as V
    d = R.get_dataset_bpe_dir(codes_id)
    return {'max': R.get_max_merges(d), 'all': V.all(codes_id), 'base': V.base(codes_id), 'nonbpe': sorted(V.nonbpe(codes_id))}


def list_of(codes_id, n):
    from codeprep.pipeline import bperegistry as R
    return [[list(m.pair), m.freq, m.priority] for m in R.load_bpe_merges(codes_id, n)]


def as_merges(raw):
    return [Merge(tuple(p), f, r) for p, f, r in raw]


def learn_command(root, n, exts=None, no_unicode=False, codes_id=None):
    a = ['learn-bpe', str(n), '-p', root]
    if exts:
        a += ['-e', '|'.join(exts)]
    if codes_id:
        a += ['--id', codes_id]
    if no_unicode:
        a += ['--no-unicode']
    return a


def run_command(args):
    from codeprep.cli.spec import parse_and_run
    import logging
    parse_and_run(args)
    logging.disable(logging.CRITICAL)


class Learned(object):
    """reference for one custom id: the lists learned so far"""

    def __init__(self, root, exts, no_unicode):
        self.counts, self.never = training(root, exts, no_unicode)
        self.start = start_vocab(self.counts, self.never)
        self.lists = {}

    def prior(self, n):
        return max([k for k in self.lists if k <= n] or [0])

    def learned(self, n, state, at_most_n, merges, what):
        """after `learn-bpe n`: `at_most_n` is the longest list with at most n merges"""
        require(state['all'] == dict(self.counts), what + ': vocabloader.all() is not the count of the training corpus',
                diff(state['all'], dict(self.counts)))
        require(set(state['nonbpe']) == self.never, what + ': vocabloader.nonbpe() is wrong',
                sorted(set(state['nonbpe']) ^ self.never))
        base = {w: f for w, f in self.counts.items() if w not in self.never}
        require(state['base'] == base, what + ': vocabloader.base() is wrong', diff(state['base'], base))
        merges = as_merges(merges)
        require(len(merges) == at_most_n, what + ': the list of %d merges has %d' % (at_most_n, len(merges)))
        end = check_list(merges, n, self.start, what)
        p = self.prior(n)
        if p:
            require([m.pair for m in merges[:p]] == [m.pair for m in self.lists[p]],
                    what + ': the list does not extend the %d merges learned before' % p, merges, self.lists[p])
        if len(merges) in self.lists:
            require(merges == self.lists[len(merges)], what + ': a list learned before was changed')
        self.lists[len(merges)] = merges
        return subword_counts(end, self.counts, self.never)

    def ranks(self, k):
        n = min([x for x in self.lists if x >= k])
        return {m.pair: i for i, m in enumerate(self.lists[n][:k])}


def diff(got, want):
    return {w: (got.get(w), want.get(w)) for w in set(got) | set(want) if got.get(w) != want.get(w)}


def can_merge(root, exts, no_unicode):
    counts, never = training(root, exts, no_unicode)
    return any(w not in never for w in counts)
