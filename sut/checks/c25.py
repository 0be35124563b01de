"""basic splitting with ronin and stem"""
from nltk.stem import PorterStemmer

import ref
import spiral_stub
from common import Skip, require, short, first_diff, call_text, group, unwrap
from checks._text import nodes_of

spiral_stub.install()
porter = PorterStemmer()


def with_case(stem, word):
    if word.isupper():
        return stem.upper()
    if word[0].isupper():
        return stem.capitalize()
    return stem


def stem(word):
    """the Porter stem of a word, in the case of the word"""
    return with_case(porter.stem(word), word)


def stem_lower(word):
    return with_case(porter.stem(word.lower()), word)


def resplit(full, st):
    """the subtokens of an identifier -> those with the additional splitting"""
    res = []
    for p in unwrap(full):
        if p in ('_', '<Cap>', '<CAPS>'):
            res.append(p)
        else:
            res.extend(x if st is None else st(x) for x in spiral_stub.split(p))
    whole = len(res) == 1 or len(res) == 2 and res[0] in ('<Cap>', '<CAPS>')
    return res if whole else ['<w>'] + res + ['</w>']


def run(case):
    spiral_stub.CUTS[0] = case['cuts']
    nodes = nodes_of(case)
    o = dict(case['opts'])
    alg = case['alg']
    if alg == 'stem' and not all(ref.is_ascii(n.text) for n in nodes):
        raise Skip('stems of words that are not ASCII are not specified')
    kw = {'ronin': True} if alg == 'ronin' else {'stem': True}
    for extra in case['redundant']:
        if not (alg == 'ronin' and extra == 'stem'):
            kw[extra] = True
    plain = group(*call_text(case['text'], case['ext'], 'basic', dict(o, split_numbers=True)))
    fulls = ref.render(nodes, 'basic', dict(o, split_numbers=True))
    require(len(fulls) == len(plain), 'basic(%r, %r, %r): full tokens differ' % (case['text'], case['ext'], o))
    wants = []
    for st in ([None] if alg == 'ronin' else [stem, stem_lower]):
        wants.append([resplit(g, st) if f.word else g for g, f in zip(plain, fulls)])
    tokens, md = call_text(case['text'], case['ext'], 'basic', dict(o, **kw))
    got = group(tokens, md)
    what = 'basic(%r, %r, %r) cut before %r' % (case['text'], case['ext'], dict(o, **kw), case['cuts'])
    require(list(tokens) == [s for g in got for s in g], what + ': the word boundaries do not cover the tokens')
    require(got in wants, what, 'got      ' + short(got, 1000), 'expected ' + short(wants[0], 1000), first_diff(got, wants[0]))
    words = sum(1 for a, b in zip(plain, got) if a != b)
    return {'nontrivial': words >= 1, 'labels': [alg, 'words changed:%d' % min(words, 5)] + (['no_case'] if o.get('no_case') else [])}
