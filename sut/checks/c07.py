import ref
from common import require
from checks._text import check_against_model, mode_label


def run(case):
    case = dict(case, opts=dict(case['opts'], no_unicode=True))
    exp, tokens, md = check_against_model(case, 'no_unicode')
    words = [f for f in exp if f.cls == 'noneng' or f.text == '<non-en>']
    mixed = any(f.text != '\xf7' and '\xf7' in f.text for f in exp)
    if case['mode'] in ('bpe', 'chars'):
        for f in exp:
            pass
    return {'nontrivial': bool(words) or mixed,
            'labels': [mode_label(case)] + (['word with partial non-ascii'] if mixed else []) +
                      (['placeholder'] if any(f.text == '<non-en>' for f in exp) else [])}
