from common import require, full_texts as all_of_full_texts, first_diff, group
from checks._text import run_mode, nodes_of


def full_texts(*args):
    """blanks that a lexer puts into numbers (as in COBOL) aside"""
    return [t.replace(' ', '') for t in all_of_full_texts(*args)]


def run(case):
    nodes_of(case)
    where = '(%r, %r, %r)' % (case['text'], case['ext'], case['opts'])
    t0, m0 = run_mode(case, 'nosplit')
    base = full_texts(t0, m0, 'nosplit')
    sub = 0
    for name, over in (('basic', {}), ('basic', {'split_numbers': True})):
        t, m = run_mode(case, name, **over)
        got = full_texts(t, m, 'basic')
        sub += len(t) - len(got)
        require(got == base, 'basic%s%r and nosplit disagree on the full tokens' % (where, over), first_diff(got, base))
    if not case['opts'].get('no_unicode'):
        t1, m1 = run_mode(case, 'nosplit', full_strings=True)
        full = full_texts(t1, m1, 'nosplit')
        for name in ('chars', 'bpe'):
            t, m = run_mode(case, name)
            got = full_texts(t, m, name)
            sub += len(t) - len(got)
            require(got == full, '%s%s (codes %s) and nosplit disagree on the full tokens' % (name, where, case['bpe']),
                    first_diff(got, full))
    else:
        t, m = run_mode(case, 'chars')
        t2, m2 = run_mode(case, 'bpe')
        require(full_texts(t, m, 'chars') == full_texts(t2, m2, 'bpe'),
                'chars and bpe%s disagree on the full tokens' % where)
    return {'nontrivial': sub >= 4 and len(base) >= 4,
            'labels': ['bpe:' + case['bpe'], 'strings' if '"' in case['text'] else 'no-strings'] + sorted(case['opts'])}
