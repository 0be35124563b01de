from common import require, group, unwrap, first_diff
from checks._text import expect, run_mode, nodes_of


def decode(subs):
    """undo <Cap>/<CAPS> of one full token, then wrap as `basic` does"""
    inner = unwrap(subs)
    out = []
    i = 0
    while i < len(inner):
        if inner[i] == '<Cap>':
            w = inner[i + 1]
            out.append(w[0].upper() + w[1:])
            i += 2
        elif inner[i] == '<CAPS>':
            out.append(inner[i + 1].upper())
            i += 2
        else:
            out.append(inner[i])
            i += 1
    return out


def run(case):
    from codeprep.tokens.containers import SplitContainer
    from codeprep.tokens.noneng import NonEng
    nodes = nodes_of(case)
    t0, m0 = run_mode(case, 'basic')
    t1, m1 = run_mode(case, 'basic', no_case=True)
    where = 'basic(%r, %r, %r)' % (case['text'], case['ext'], case['opts'])
    g0, g1 = group(t0, m0), group(t1, m1)
    require(len(g0) == len(g1), where + ': no_case changes the number of full tokens')
    require(m0.token_types == m1.token_types, where + ': no_case changes the token types')
    exp = expect(case, 'basic', nodes=nodes, no_case=False)
    require(len(exp) == len(g1), where + ': %d full tokens, the text has %d' % (len(g1), len(exp)))
    for f, b in zip(exp, g1):
        want = unwrap(f.subs)
        if f.word and decode(b) != want:
            require(False, where + ': no_case: %r decodes to %r, the text has %r' % (b, decode(b), want))
    marks = 0
    kinds = set()
    for a, b, t in zip(g0, g1, m1.token_types):
        if a == b:
            if len(a) == 1:
                w = a[0]
                if t is SplitContainer and w.isascii() and w != w.lower():
                    require(False, where + ': identifier %r is not lower-cased' % w)
            else:
                for w in unwrap(a):
                    require(not w.isascii() or w == w.lower() or w in ('<Cap>', '<CAPS>'),
                            where + ': identifier part %r is not lower-cased' % w)
            continue
        marks += 1
        kinds.update(x for x in b if x in ('<Cap>', '<CAPS>'))
        inner = unwrap(b)
        for i, x in enumerate(inner):
            if x in ('<Cap>', '<CAPS>'):
                require(i + 1 < len(inner) and inner[i + 1] not in ('<Cap>', '<CAPS>'),
                        where + ': case mark without a word in %r' % (b,))
            else:
                require(x == x.lower() or not x.isascii(), where + ': part %r of %r is not lower-cased' % (x, b))
        want = unwrap(a)
        got = decode(b)
        require(got == want, where + ': %r decodes to %r, the identifier is %r' % (b, got, want))
        n = len(inner)
        bare = n == 1 or (n == 2 and inner[0] in ('<Cap>', '<CAPS>'))
        require(bare == (inner is b), where + ': wrapping of %r' % (b,))
    return {'nontrivial': marks >= 2, 'labels': sorted(kinds) + (['non-ascii'] if not case['text'].isascii() else [])}
