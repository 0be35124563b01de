import ref
from common import Violation, require
from checks._text import check_against_model, nodes_of, mode_label

TABLE = 62   # limits that the one-character option encoding cannot represent (known finding KF1)


def run(case):
    nodes = nodes_of(case)
    limit = case['opts'].get('max_str_length')
    known = []
    try:
        exp, tokens, md = check_against_model(case, 'comment/string options')
    except Violation:
        longer = [n for n in nodes if n.kind == 'str' and n.length > (limit or 0)]
        if limit is None or limit < TABLE or not longer:
            raise
        # KF1: such limits are treated as "no limit"; anything else is still a violation
        c = dict(case, opts={k: v for k, v in case['opts'].items() if k != 'max_str_length'})
        want = ref.render(nodes, 'bpe' if case['mode'] in ('bpe', 'chars') else case['mode'],
                          {k: v for k, v in c['opts'].items()})
        exp, tokens, md = _same_as_unlimited(case, c)
        known = ['KF1']
    coms = sum(1 for n in nodes if n.kind in ('olc', 'mlc'))
    strs = [n for n in nodes if n.kind == 'str']
    labels = [mode_label(case)] + sorted(k for k in case['opts'])
    if limit is not None and strs:
        labels.append('limit splits strings' if any(n.length > limit for n in strs) and any(n.length <= limit for n in strs)
                      else 'limit on one side')
        if any(n.length == limit for n in strs):
            labels.append('string length equals the limit')
    o = case['opts']
    nontrivial = (coms >= 1 and 'no_com' in o) or (bool(strs) and ('no_str' in o or 'full_strings' in o or limit is not None))
    return {'nontrivial': nontrivial, 'labels': labels, 'known': known}


def _same_as_unlimited(case, unlimited):
    from checks._text import run_mode
    t1, m1 = run_mode(case, case['mode'])
    exp, t2, m2 = check_against_model(unlimited, 'comment/string options (limit beyond the table)')
    require(t1 == t2, 'a limit beyond the option table is neither applied nor ignored')
    return exp, t1, m1


def probes():
    from common import call_text
    case = {'text': 'x = "%s";' % ('a' * 98), 'ext': 'java', 'mode': 'nosplit', 'bpe': '1k',
            'opts': {'max_str_length': 80, 'full_strings': True}}
    tokens, md = call_text(case['text'], 'java', 'nosplit', case['opts'])
    return [{'id': 'KF1', 'case': case, 'failing': '""' not in tokens,
             'what': 'nosplit(text, max_str_length=80) leaves a 100-character string literal as it is '
                     '(any limit of 62 or more is treated as no limit)'}]
