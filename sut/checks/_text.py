"""helpers of the text-API checks"""
import re

import ref
from common import Skip, Violation, require, first_diff, call_text, group, strip_end, unwrap, full_texts, END, short


def nodes_of(case, text=None):
    try:
        nodes = ref.parse(case['text'] if text is None else text, case['ext'])
    except ref.LexerFailure as e:
        raise Skip('the lexer itself fails: %s' % str(e)[:40])
    if case['opts'].get('append_eof'):
        nodes = nodes + [ref.EOF_NODE]
    return nodes


def ref_mode(mode):
    return 'bpe' if mode in ('bpe', 'chars') else mode


def api_opts(mode, opts):
    """the options the given mode accepts"""
    o = dict(opts)
    if mode != 'basic':
        o.pop('no_case', None)
        o.pop('split_numbers', None)
    if mode != 'nosplit':
        o.pop('full_strings', None)
    return o


def run_mode(case, mode, **over):
    o = dict(case['opts'])
    o.update(over)
    return call_text(case['text'], case['ext'], mode, api_opts(mode, o), case.get('bpe'))


def expect(case, mode, nodes=None, **over):
    o = dict(case['opts'])
    o.update(over)
    return ref.render(nodes_of(case) if nodes is None else nodes, ref_mode(mode), api_opts(mode, o))


def check_against_model(case, what):
    """tokens of the call equal the reference model's: exact subtokens for nosplit/basic, full tokens for bpe/chars"""
    mode = case['mode']
    exp = expect(case, mode)
    tokens, md = run_mode(case, mode)
    if mode in ('nosplit', 'basic'):
        want = [s for f in exp for s in f.subs]
        require(tokens == want, '%s: %s(%r, %r, %r)' % (what, mode, case['text'], case['ext'], case['opts']),
                'got      ' + short(tokens, 1000), 'expected ' + short(want, 1000), first_diff(tokens, want))
        got = group(tokens, md)
        require(got == [f.subs for f in exp], '%s: full tokens differ' % what, first_diff(got, [f.subs for f in exp]))
    else:
        got = full_texts(tokens, md, mode)
        want = [f.text for f in exp]
        if any(f.cls == 'num' and ' ' in f.text for f in exp):   # a lexer (COBOL) put blanks into a number
            got, want = [t.replace(' ', '') for t in got], [t.replace(' ', '') for t in want]
        require(got == want, '%s: %s(%r, %r, %r)' % (what, mode, case['text'], case['ext'], case['opts']),
                'got      ' + short(got, 1000), 'expected ' + short(want, 1000), first_diff(got, want))
    return exp, tokens, md


def strip_ws(s):
    return ''.join(c for c in s if not c.isspace())


NUM_RUN = re.compile(r'\.?\d[\w.+\-]*')


def same_up_to_number_case(seg, full, is_number):
    if seg == full:
        return True
    if is_number and seg.lower() == full:
        return True
    if len(seg) != len(full):
        return False
    ok = [False] * len(seg)
    for m in NUM_RUN.finditer(seg):
        for i in range(m.start(), m.end()):
            ok[i] = True
    return all(a == b or (ok[i] and a.lower() == b) for i, (a, b) in enumerate(zip(seg, full)))


def mode_label(case):
    return 'mode:' + case['mode'] + (':' + case['bpe'] if case['mode'] == 'bpe' else '')
