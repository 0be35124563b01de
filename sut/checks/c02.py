import ref
from common import Skip, Violation, require, full_texts, short
from checks._text import nodes_of, run_mode, strip_ws, same_up_to_number_case, mode_label


def run(case):
    from codeprep.tokens.containers import OneLineComment
    from codeprep.tokens.numeric import Number
    text = case['text']
    try:
        lexed = ''.join(v for _, v in ref.tokens(text, case['ext']))
    except ref.LexerFailure:
        raise Skip('the lexer itself fails')
    source = strip_ws(text[1:] if text.startswith('\ufeff') else text)
    if strip_ws(lexed) != source:
        raise Skip('the lexer itself loses or invents text')
    mode = case['mode']
    tokens, md = run_mode(case, mode)
    where = '%s(%r, %r, %r)' % (mode, text, case['ext'], case['opts'])
    pos = 0
    multi = 0
    for i, (full, t) in enumerate(zip(full_texts(tokens, md, mode), md.token_types)):
        if t is OneLineComment and full == '<EOL>':
            continue
        full = strip_ws(full)
        seg = source[pos:pos + len(full)]
        require(same_up_to_number_case(seg, full, issubclass(t, Number)),
                where + ': full token %d is %r where the source has %r' % (i, full, seg), tokens)
        pos += len(full)
        multi += 1
    require(pos == len(source), where + ': the output ends before the source text %r' % short(source[pos:]), tokens)
    return {'nontrivial': multi >= 5 and len(source) >= 12,
            'labels': [mode_label(case), 'non-ascii' if not text.isascii() else 'ascii'] +
                      (['number'] if any(issubclass(t, Number) for t in md.token_types) else [])}
