import ref
from common import Violation, require, call_text, group, short, first_diff
from checks._text import nodes_of, run_mode, expect, api_opts, mode_label


def run(case):
    from codeprep.tokens.containers import SplitContainer, StringLiteral, OneLineComment, MultilineComment
    from codeprep.tokens.noneng import NonEng
    from codeprep.tokens.numeric import Number
    from codeprep.tokens.whitespace import NewLine, Tab
    from codeprep.tokens.word import KeyWord, Operator, NonCodeChar, SpecialToken
    classes = {'kw': (KeyWord,), 'op': (Operator,), 'char': (NonCodeChar,), 'word': (SplitContainer,),
               'noneng': (NonEng, SplitContainer), 'num': (Number,), 'nl': (NewLine,), 'tab': (Tab,),
               'str': (StringLiteral,), 'olc': (OneLineComment,), 'mlc': (MultilineComment,), 'eof': (SpecialToken,)}
    mode = case['mode']
    exp = expect(case, mode)
    tokens, md = run_mode(case, mode)
    plain = call_text(case['text'], case['ext'], mode, api_opts(mode, case['opts']), case['bpe'], meta=False)
    where = '%s(%r, %r, %r)' % (mode, case['text'], case['ext'], case['opts'])
    require(type(tokens) is list and all(type(t) is str for t in tokens), where + ': tokens are not a list of strings', tokens)
    require(plain == tokens, where + ': tokens with and without metadata differ', first_diff(plain, tokens))
    b = md.word_boundaries
    require(len(b) >= 1 and b[0] == 0, where + ': word boundaries do not start at 0', b)
    require(all(x < y for x, y in zip(b, b[1:])), where + ': word boundaries are not strictly increasing', b)
    require(b[-1] == len(tokens), where + ': last word boundary %r is not the number of subtokens %d' % (b[-1], len(tokens)),
            tokens, b)
    require(len(md.token_types) == len(b) - 1,
            where + ': %d token types for %d full tokens' % (len(md.token_types), len(b) - 1), md)
    marks = 0
    if mode in ('bpe', 'chars'):
        ends = set(b[1:])
        lookalike = '</t>' in case['text']
        for i, t in enumerate(tokens):
            terminal = t.endswith('</t>')
            if (i + 1) in ends:
                marks += 1
                require(terminal, where + ': last subtoken %d (%r) of a full token is not marked' % (i, t), tokens, b)
            elif not lookalike:
                require(not terminal, where + ': inner subtoken %d (%r) carries the end mark' % (i, t), tokens, b)
    require(len(exp) == len(b) - 1, where + ': %d full tokens reported, the text has %d' % (len(b) - 1, len(exp)),
            [''.join(g) for g in group(tokens, md)], [f.text for f in exp])
    for i, (f, t) in enumerate(zip(exp, md.token_types)):
        require(isinstance(t, type) and issubclass(t, classes[f.cls]),
                where + ': full token %d %r has type %s, expected %s' % (
                    i, f.text, getattr(t, '__name__', t), '/'.join(c.__name__ for c in classes[f.cls])))
    want = set()
    for f in exp:
        want.update(f.nonproc)
    got = set(md.nonprocessable_tokens)
    require(got == want, where + ': set of never-split tokens is wrong', 'unexpected %s' % sorted(got - want),
            'missing %s' % sorted(want - got))
    types = {f.cls for f in exp}
    multi = len(tokens) > len(exp)
    return {'nontrivial': len(types) >= 3 and len(exp) >= 4,
            'labels': [mode_label(case)] + ['has:' + t for t in sorted(types)] + (['multi-subtoken'] if multi else [])}
