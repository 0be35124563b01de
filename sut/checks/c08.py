import ref
from common import require, group, first_diff, strip_end, call_text
from checks._text import run_mode, nodes_of, api_opts, mode_label


def fulls(tm, mode):
    t, m = tm
    return list(zip([tuple(strip_end(g) if mode in ('bpe', 'chars') else g) for g in group(t, m)], m.token_types))


def run(case):
    nodes = nodes_of(case)
    mode = case['mode']
    where = '%s(%r, %r, %r)' % (mode, case['text'], case['ext'], case['opts'])
    base_tm = run_mode(case, mode)
    base = fulls(base_tm, mode)
    labels = [mode_label(case)]
    # no_spaces removes exactly the newline and tab tokens
    got = fulls(run_mode(case, mode, no_spaces=True), mode)
    want = [f for f in base if f[0] not in (('\n',), ('\t',))]
    require(got == want, where + ': no_spaces removes something else than the newline and tab tokens', first_diff(got, want))
    # append_eof adds exactly one final token
    t, m = run_mode(case, mode, append_eof=True)
    e = fulls((t, m), mode)
    require(e[:-1] == base and e and e[-1][0] == ('<EOF>',) and e[-1][1].__name__ == 'SpecialToken',
            where + ': append_eof does not just append the end-of-file token', first_diff(e[:-1], base))
    require('<EOF>' in m.nonprocessable_tokens, where + ': the end-of-file token is not in the never-split set')
    # newlines and indentation are kept as tokens
    wsn = [n.text for n in ref_ws(nodes)]
    gotn = [f[0][0] for f in base if f[0] in (('\n',), ('\t',))]
    if mode == 'nosplit' and not case['opts'].get('no_str') and not case['opts'].get('no_com') \
            and not case['opts'].get('full_strings') and case['opts'].get('max_str_length') is None:
        require(gotn == wsn, where + ': newline/tab tokens', first_diff(gotn, wsn))
    # the default language is java
    if case['ext'] in (None, '', 'java'):
        labels.append('default language')
        for ext in (None, '', 'java'):
            o = call_text(case['text'], ext, mode, api_opts(mode, case['opts']), case['bpe'])
            require(o[0] == base_tm[0] and o[1].word_boundaries == base_tm[1].word_boundaries,
                    where + ': extension %r is not treated as java' % (ext,), first_diff(o[0], base_tm[0]))
    # a trailing newline is insignificant (lexers that strip surrounding newlines do not see it at all)
    lexer = ref.pick_lexer(case['text'], case['ext'])
    if lexer.stripnl and not case['text'].startswith('\ufeff') and case['text'].strip('\n\r') \
            and known_lexer(case['ext']):
        labels.append('trailing newline')
        for tail in ('\n', '\n\n'):
            o = call_text(case['text'] + tail, case['ext'], mode, api_opts(mode, case['opts']), case['bpe'])
            require(o[0] == base_tm[0], where + ': a trailing newline changes the output', first_diff(o[0], base_tm[0]))
    if base:
        last = base[-1]
        require(last[0] != ('\n',) or last[1].__name__ != 'NewLine' or len(nodes) == 0 or nodes[-1].kind == 'nl' or
                nodes[-1].kind in ('olc', 'mlc', 'str') or nodes[-1].subs is not None,
                where + ': trailing newline token')
    n_ws = len(gotn)
    return {'nontrivial': n_ws >= 2 and len(base) >= 5, 'labels': labels + (['with whitespace tokens'] if n_ws else [])}


def known_lexer(ext):
    from pygments.lexers import get_lexer_by_name
    from pygments.util import ClassNotFound
    try:
        get_lexer_by_name(ext or 'java')
        return True
    except ClassNotFound:
        return False


def ref_ws(nodes):
    for n in nodes:
        if n.subs is None:
            if n.kind in ('nl', 'tab'):
                yield n
        else:
            for s in n.subs:
                if s.kind in ('nl', 'tab'):
                    yield s
