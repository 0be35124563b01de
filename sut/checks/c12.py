"""learning BPE merges over a whole text (wild BPE)"""
import os
import sys
from collections import Counter

import ref
from common import fresh, require, short, sut, wipe

if not hasattr(sys, '_verif_sizeof'):
    sys._verif_sizeof = True
    sys.getsizeof = lambda o, default=0: 0      # not available on PyPy; only used for a debug message


def decoded(path):
    with open(path, 'rb') as f:
        data = f.read()
    try:
        text = data.decode('utf-8')
    except UnicodeDecodeError:
        text = data.decode('latin-1')
    return text.replace('\r\n', '\n').replace('\r', '\n')


def run(case):
    from codeprep.bpepkg import wild_bpe
    text, n = ''.join(t * k for t, k in case['text']), case['n']
    what = 'run_from_%s(%r, %s)' % (case['via'], text, n)
    kw = {} if n is None else {'n_merges': n}
    if case['via'] in ('file', 'dir'):
        d = fresh('wild')
        for name, t, enc in case['files'] if case['via'] == 'dir' else [['x.py', text, case['enc']]]:
            path = os.path.join(d, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as f:
                f.write(t.encode('utf-8', 'replace') if enc == 'utf-8' else t.encode('latin-1', 'replace'))
        if case['via'] == 'file':
            got = sut(lambda: list(wild_bpe.run_from_file(path, **kw)))
            text = decoded(path)
        else:
            what = 'run_from_dir(%r, %s)' % (case['files'], n)
            got = sut(lambda: list(wild_bpe.run_from_dir(d, **kw)))
            text = ''.join(decoded(os.path.join(root, f)) + '\n\n\n' for root, _, files in os.walk(d) for f in files if f.endswith('.py'))
        wipe(d)
    elif case['via'] == 'stats':
        got = sut(lambda: list(wild_bpe.run(iter(text.replace(' ', '\xa0')), sys.maxsize if n is None else n, 2)))
    else:
        got = sut(lambda: list(wild_bpe.run_from_text(text, **kw)))
    text = text.replace(' ', '\xa0')
    if len(text) > 100:
        what = short(what)
    cur = list(text)
    for i, item in enumerate(got):
        pair, occ = tuple(item[0].split(' ')), item[1]
        c = Counter(zip(cur, cur[1:]))
        require(c.get(pair), '%s: merge %d, %r, is not an adjacent pair' % (what, i, pair), short(cur))
        require(c[pair] == max(c.values()), '%s: merge %d, %r, occurs %d times, but %r occurs %d times' % (
            (what, i, pair, c[pair]) + c.most_common(1)[0]), short(cur))
        new = ref.bpe_merge(cur, {pair: 0})
        require(occ == len(cur) - len(new), '%s: merge %d, %r, is reported with %d occurrences, %d are merged' % (
            what, i, pair, occ, len(cur) - len(new)), short(cur))
        cur = new
    if n is None or len(got) < n:
        require(len(cur) == min(1, len(text)), what + ': ended with %d symbols left' % len(cur), short(cur))
    else:
        require(len(got) == n, what + ': %d merges' % len(got))
    return {'nontrivial': len(got) >= 4, 'labels': [case['via']] + (['long'] if len(text) > 8192 else []) + (['all merges'] if n is None else [])}
