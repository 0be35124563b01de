import ref
from checks._text import check_against_model


def run(case):
    case = dict(case, mode='basic')
    exp, tokens, md = check_against_model(case, 'basic splitting convention')
    wrapped = sum(1 for f in exp if f.subs[0] == '<w>')
    digits = case['opts'].get('split_numbers') and any(f.cls == 'num' and len(f.subs) > 1 for f in exp)
    return {'nontrivial': wrapped >= 1,
            'labels': (['split number'] if digits else []) + (['several parts'] if wrapped else []) +
                      (['non-ascii ident'] if any(f.cls == 'noneng' for f in exp) else [])}
