"""iterators over subtokens and full tokens, joining and validating metadata"""
import ref
from common import Skip, require, sut, sut_exc, call_text
from checks._text import api_opts


class TypeA(object):
    pass


class TypeB(object):
    pass


class TypeC(object):
    pass


TYPES = [TypeA, TypeB, TypeC]


def make(words, np=()):
    from codeprep.preprocess.metadata import PreprocessingMetadata
    b = [0]
    for w in words:
        b.append(b[-1] + len(w['subs']))
    return [s for w in words for s in w['subs']], PreprocessingMetadata(set(np), b, [TYPES[w['type']] for w in words])


def run(case):
    return {'iter': run_iter, 'join': run_join, 'api': run_api}[case['kind']](case)


def check_iterators(subs, b, words):
    from codeprep.subtokens import SubtokenIterator, FullTokenIterator
    keep = (list(subs), list(b))
    require(list(sut(SubtokenIterator, subs, b)) == subs, 'SubtokenIterator(%r, %r)' % (subs, b))
    idx = [(i, s) for i, w in enumerate(words) for s in w]
    got = sut(lambda: list(SubtokenIterator(subs, b, return_full_token_index=True)))
    require(got == idx, 'SubtokenIterator with index of %r, %r: %r' % (subs, b, got))
    got = sut(lambda: list(SubtokenIterator(subs, b, format=lambda l: (len(l), l[0]))))
    require(got == [(1, s) for s in subs], 'SubtokenIterator with format: %r' % (got,))
    got = sut(lambda: list(FullTokenIterator(subs, b)))
    require(got == [''.join(w) for w in words], 'FullTokenIterator(%r, %r): %r' % (subs, b, got))
    nums = [len(w) * 3 + i for i, w in enumerate(subs)]
    got = sut(lambda: list(FullTokenIterator(nums, b, format=sum)))
    require(got == [sum(nums[i:j]) for i, j in zip(b, b[1:])], 'FullTokenIterator over numbers %r, %r: %r' % (nums, b, got))
    require(sut(lambda: list(SubtokenIterator(nums, b))) == nums, 'SubtokenIterator over numbers %r, %r' % (nums, b))
    got = sut(lambda: list(SubtokenIterator(nums, b, format=lambda l: l[0] + 1, return_full_token_index=True)))
    require(got == [(i, nums[x] + 1) for i in range(len(b) - 1) for x in range(b[i], b[i + 1])], 'SubtokenIterator over numbers, with index: %r' % (got,))
    got = sut(lambda: list(FullTokenIterator(subs, b, return_full_token_index=True)))
    require(got == [(i, ''.join(w)) for i, w in enumerate(words)], 'FullTokenIterator with index of %r, %r: %r' % (subs, b, got))
    got = sut(lambda: list(FullTokenIterator(subs, b, format=tuple, return_full_token_index=True)))
    require(got == [(i, tuple(w)) for i, w in enumerate(words)], 'FullTokenIterator with index of %r, %r: %r' % (subs, b, got))
    it = FullTokenIterator(subs, b, format=lambda l: '|'.join(l))
    require(iter(it) is it, 'the iterator is not its own iterator')
    got = sut(lambda: list(it))
    require(got == ['|'.join(w) for w in words], 'FullTokenIterator with format: %r' % (got,))
    require(sut(lambda: list(it)) == [], 'an exhausted iterator yields again')
    require((list(subs), list(b)) == keep, 'iterating changes its arguments')


def run_iter(case):
    from codeprep.subtokens import SubtokenIterator, FullTokenIterator
    words = [w['subs'] for w in case['words']]
    subs, md = make(case['words'])
    b = md.word_boundaries
    check_iterators(subs, b, words)
    bad = []
    bad.append([])
    if subs:
        bad.append(b[:-1] if len(b) > 1 else [])
        bad.append(b[1:])
        bad.append([1] + b[1:])
        bad.append([-1] + b[1:])
        bad.append([-len(subs)] + b[1:])
        if len(b) > 2:
            bad.append([b[1], 0] + b[2:])
    bad.append([0] * len(b) if subs else [0, 1])
    bad.append(b + [b[-1] + 1])
    bad.append(b[:-1] + [b[-1] + 1])
    for x in bad:
        for cls in (SubtokenIterator, FullTokenIterator):
            r, e = sut_exc(cls, subs, x)
            require(isinstance(e, ValueError), '%s accepts boundaries %r for %r' % (cls.__name__, x, subs))
    return {'nontrivial': len(words) >= 3 and max(map(len, words)) >= 2, 'labels': ['iter']}


def view(md):
    return (set(md.nonprocessable_tokens), list(md.word_boundaries), list(md.token_types))


def run_join(case):
    from codeprep.preprocess.metadata import PreprocessingMetadata
    parts = case['parts']
    flat = [w for p in parts for w in p['words']]
    want = view(make(flat, [x for p in parts for x in p['np']])[1])

    def mk(p):
        return make(p['words'], p['np'])[1]
    # left fold from empty metadata
    acc = PreprocessingMetadata()
    joined = []
    for p in parts:
        m = mk(p)
        before = view(m)
        acc2 = sut(acc.update, m)
        require(acc2 is acc, 'update does not return the updated metadata')
        joined.append((m, before))
        for part, kept in joined:
            require(view(part) == kept, 'joining more metadata changes a piece joined earlier', kept, view(part))
    require(view(acc) == want, 'joining the metadata of %r' % (parts,), view(acc), want)
    # right fold
    acc = PreprocessingMetadata()
    for p in reversed(parts):
        rest, kept = acc, view(acc)
        acc = sut(mk(p).update, acc)
        require(view(rest) == kept, 'update changes its argument', kept, view(rest))
    require(view(acc) == want, 'joining from the right the metadata of %r' % (parts,), view(acc), want)
    require(acc == make(flat, [x for p in parts for x in p['np']])[1], 'equal metadata do not compare equal')
    if flat:
        acc.set_all_tokens_type(TypeB)
        require(acc.token_types == [TypeB] * len(flat) and acc.word_boundaries == want[1], 'set_all_tokens_type')
    e1 = PreprocessingMetadata()
    require(view(e1) == (set(), [0], []), 'new metadata is not empty: %r (state shared between objects?)' % (e1,))
    return {'nontrivial': len(parts) >= 2 and len(flat) >= 3, 'labels': ['join']}


def run_api(case):
    from codeprep.preprocess.metadata import check_metadata_validity, PreprocessingMetadata
    try:
        ref.tokens(case['text'], case['ext'])
    except ref.LexerFailure:
        raise Skip('the lexer itself fails')
    if '</t' in case['text']:
        raise Skip('text with the end mark')
    subs, md = call_text(case['text'], case['ext'], case['mode'], api_opts(case['mode'], case['opts']), case['bpe'])
    b = list(md.word_boundaries)
    words = [subs[i:j] for i, j in zip(b, b[1:])]
    check_iterators(subs, b, words)
    marked = case['mode'] in ('bpe', 'chars')
    args = () if marked else (False,)
    keep = (list(subs), view(md))
    r, e = sut_exc(check_metadata_validity, subs, md, *args)
    require((list(subs), view(md)) == keep, 'check_metadata_validity changes its arguments')
    require(e is None, 'check_metadata_validity rejects what %s returned: %r' % (case['mode'], e), subs, md)
    # damaged data must be rejected
    damaged = []

    def with_b(nb):
        return PreprocessingMetadata(set(), nb, [TypeA] * max(0, len(nb) - 1))
    if subs:
        damaged.append(('a lost subtoken', subs[:-1], md))
        damaged.append(('an extra subtoken', subs + ['x'], md))
        damaged.append(('boundaries starting at 1', subs, with_b([1] + b[1:])))
        damaged.append(('boundaries starting at -1', subs, with_b([-1] + b[1:])))
        damaged.append(('no last boundary', subs, with_b(b[:-1])))
        if len(b) > 2:
            j = 1 + case['k'] % (len(b) - 2)
            sw = list(b)
            sw[0], sw[j] = sw[j], sw[0]
            damaged.append(('boundaries 0 and %d swapped' % j, subs, with_b(sw)))
        i = case['k'] % len(subs)
        damaged.append(('subtoken %d lost' % i, subs[:i] + subs[i + 1:], md))
        damaged.append(('subtoken %d doubled' % i, subs[:i] + subs[i:i + 1] + subs[i:], md))
        damaged.append(('no boundaries', subs, with_b([])) if case['k'] % 2 else ('one boundary more', subs, with_b(b + [b[-1] + 1])))
    if marked and subs:
        k = case['k']
        i = k % len(subs)
        j = (i + 1 + k // 7) % len(subs)
        s2 = list(subs)
        s2.insert(j, s2.pop(i))
        if [x.endswith('</t>') for x in s2] != [x.endswith('</t>') for x in subs]:
            damaged.append(('subtoken %d moved to %d' % (i, j), s2, md))
        for j in range(1, len(b) - 1):      # boundaries moved by one
            d = 1 if (k + j) % 2 else -1
            if b[j] + d not in b:
                damaged.append(('boundary %d moved by %d' % (j, d), subs, with_b(b[:j] + [b[j] + d] + b[j + 1:])))
                break
        s2 = list(subs)
        s2[i] = s2[i][:-4] if s2[i].endswith('</t>') else s2[i] + '</t>'
        damaged.append(('the end mark of subtoken %d flipped' % i, s2, md))
        if len(b) > 2:
            j = 1 + k % (len(b) - 2)
            damaged.append(('boundary %d removed' % j, subs, with_b(b[:j] + b[j + 1:])))
        inner = [x for x in range(len(subs)) if x not in b]
        if inner:
            x = inner[k % len(inner)]
            damaged.append(('boundary %d added' % x, subs, with_b(sorted(b + [x]))))
    for what, s2, m2 in damaged:
        r, e = sut_exc(check_metadata_validity, s2, m2, *args)
        require(isinstance(e, (ValueError, AssertionError)), 'check_metadata_validity accepts data with %s: %r' % (what, e), s2, m2)
    return {'nontrivial': len(words) >= 4, 'labels': ['api', 'mode:' + case['mode']], 'n': 1 + len(damaged)}
