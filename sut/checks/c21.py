"""the ids of custom bpe codes: assigned, listed, resolved"""
import os

import learn
import ref
from common import fresh, require, wipe, strip_end, group
import fsutil as fs
from checks._text import run_mode, expect

BASE = 1200000000
BAD = ['%s', '%s-', '%s-0', '%s-03', '%s-x', '%s_3', '%s-3k', '%s-3-', '%s--', '-%s', '%s- 3', '%s-3 ', '%s-1.0']


def run(case):
    fs.reset_home()
    base = fresh('c21')
    roots = []
    t = BASE
    for i, d in enumerate(case['datasets']):
        root = os.path.join(base, 'd%d' % i, d['name'])
        os.makedirs(root)
        fs.plant(root, [{'path': ['a.java'], 'data': d['text'] + '\nlala lala_x lalala\n'}])
        t += 7
        fs.set_times(root, t)
        roots.append(root)
    model = {}            # (root, time of modification, no_unicode) -> id
    state = {}            # id -> Learned
    stamp = {r: os.stat(r).st_mtime for r in roots}
    labels = set()
    steps = 0
    for op in case['ops'] + [{'op': 'look'}]:
        steps += 1
        kind = op['op']
        if op.get('touch'):
            root = roots[op['ds'] % len(roots)]
            t += 7
            fs.set_times(root, t)
            stamp[root] = t
            labels.add('modified dataset')
        if kind in ('learn', 'assign'):
            root = roots[op['ds'] % len(roots)]
            nou = op['no_unicode']
            key = (root, stamp[root], nou)
            explicit = op['id']
            if explicit in state and model.get(key) != explicit:
                explicit = None          # giving the id of other codes is not specified
            what = 'step %d: %s %r%s%s' % (steps, kind, os.path.basename(root), ' --no-unicode' if nou else '',
                                           ' --id %r' % explicit if explicit else '')
            known = set(state)
            base_id = os.path.basename(root) + ('_nounicode' if nou else '')

            def go():
                if kind == 'learn':
                    learn.run_command(learn.learn_command(root, op['n'], None, nou, explicit))
                else:
                    assign(root, nou, explicit)
                return query_ids(root, nou)
            mine, shown = fs.must(fs.isolated(go, ncpu=1), what)
            if key in model:
                require(mine == model[key], what + ': the id %r was replaced by %r' % (model[key], mine))
                labels.add('id already assigned')
            else:
                require(mine not in known, what + ': the id %r is already that of other codes' % mine, sorted(known))
                if explicit:
                    require(mine == explicit, what + ': got the id %r' % mine)
                    labels.add('explicit id')
                else:
                    require(mine == base_id or (mine or '').startswith(base_id + '_'),
                            what + ': the id %r is not made from the name' % mine)
                    labels.add('automatic id' if base_id not in known else 'automatic id with a number')
                model[key] = mine
                state[mine] = learn.Learned(root, None, nou)
            L = state[mine]
            if kind == 'learn':
                def look():
                    from codeprep.pipeline import bperegistry as R
                    m = R.get_max_merges(R.get_dataset_bpe_dir(mine), limit=op['n'])
                    return m, learn.list_of(mine, m)
                m, raw = fs.must(fs.isolated(look, ncpu=1), what)
                merges = learn.as_merges(raw)
                require(len(merges) == m, what + ': the list of %r merges has %d' % (m, len(merges)))
                learn.check_list(merges, op['n'], L.start, what)
                L.lists.setdefault(m, merges)
            elif not L.lists:
                labels.add('assigned, not learned')
        r = fs.must(fs.isolated(lambda: resolve(sorted(state)), ncpu=1), 'step %d: looking up the ids %r' % (steps, sorted(state)))
        check_state(state, r, 'step %d' % steps)
    ids = sorted(state)
    if ids:
        for u in case['uses']:
            mid = ids[u['id'] % len(ids)]
            L = state[mid]
            top = max(L.lists or [0])
            k = 1 + u['k'] % (top + 2)
            check_use(mid, L, k, top, u, labels)
        for u in case['bad']:
            mid = ids[u['id'] % len(ids)]
            s = BAD[u['form'] % len(BAD)] % mid
            known_form = '-' in s and s.rsplit('-', 1)[0] in state and is_number(s.rsplit('-', 1)[1])
            if known_form or s in ('0', '1k', '5k', '10k'):      # (predefined codes)
                continue
            r = fs.must(fs.isolated(lambda: refuse(s), ncpu=1), 'the id %r' % s)
            require(r == 'refused', 'the id %r, which is none of %r with a number of merges, is not refused' % (s, ids), r)
            labels.add('invalid id refused')
    wipe(base)
    same = len({os.path.basename(r) for r in roots}) < len(roots)
    return {'nontrivial': len(state) >= 2, 'labels': sorted(labels) + ['ids:%d' % len(state), 'same names' if same else 'different names']}


def is_number(s):
    return s.isdigit() and s.isascii() and s[0] != '0'


def assign(root, nou, explicit):
    """what an interrupted run of learn-bpe leaves: an id, nothing learned"""
    from codeprep.bpepkg.bpe_config import BpeConfig, BpeParam
    from codeprep.pipeline.dataset import Dataset
    c = config(nou)
    d = Dataset.create(root, c.to_prep_config(), None, None, c)
    if not d.bpe_codes_id:
        d.assign_bpe_codes_id(c, predefined_bpe_codes_id=explicit)


def config(nou):
    from codeprep.bpepkg.bpe_config import BpeConfig, BpeParam
    return BpeConfig({BpeParam.CASE: 'yes', BpeParam.WORD_END: False, BpeParam.BASE: 'code', BpeParam.UNICODE: 'no' if nou else 'yes'})


def query_ids(root, nou):
    from codeprep.pipeline.dataset import Dataset
    from codeprep.pipeline import bperegistry as R
    c = config(nou)
    return [Dataset.create(root, c.to_prep_config(), None, None, c).bpe_codes_id, R.format_available_merge_list_ids()]


def resolve(ids):
    """in a child: what the registry tells about all ids"""
    from codeprep.pipeline import bperegistry as R
    res = {'shown': R.format_available_merge_list_ids() if os.path.isdir(R.USER_BPE_DIR) else '', 'ids': {}}
    for i in ids:
        d = R.get_dataset_bpe_dir(i)
        top = R.get_max_merges(d)
        lists = {}
        for k in sorted({1, 2, 3, (top or 0) // 2, (top or 0) - 1, top or 0, (top or 0) + 1}):
            if k >= 1:
                try:
                    lists[str(k)] = [[list(m.pair), m.freq, m.priority] for m in R.load_bpe_merges(i, k)]
                except R.InvalidBpeCodesIdError:
                    lists[str(k)] = None
        res['ids'][i] = {'dir': d, 'max': top, 'lists': lists, 'parsed': list(R.parse_merge_list_id('%s-%d' % (i, 17)))}
    return res


def check_state(state, r, what):
    lines = sorted('%s-[1..%d]' % (i, max(L.lists)) for i, L in state.items() if L.lists)
    require(sorted(r['shown'].splitlines()) == lines, what + ': the ids that are shown as available', r['shown'], lines)
    dirs = {}
    for i, got in r['ids'].items():
        L = state[i]
        w = what + ', id %r' % i
        require(got['dir'] not in dirs, w + ': shares its codes with %r' % dirs.get(got['dir']))
        dirs[got['dir']] = i
        top = max(L.lists or [0])
        require((got['max'] or 0) == top, w + ': %r merges are available, expected %d' % (got['max'], top))
        require(got['parsed'] == [i, 17], w + ': "%s-17" is parsed as %r' % (i, got['parsed']))
        for k, merges in got['lists'].items():
            k = int(k)
            if k > top:
                require(merges is None, w + ': %d merges are not refused, %d are available' % (k, top), merges)
                continue
            require(merges is not None, w + ': %d merges are refused, %d are available' % (k, top))
            full = L.lists[min(x for x in L.lists if x >= k)]
            require([m.pair for m in learn.as_merges(merges)] == [m.pair for m in full[:k]],
                    w + ': %d merges are not the first ones that were learned' % k, merges, full)


def check_use(mid, L, k, top, u, labels):
    tcase = {'text': u['text'], 'ext': 'java', 'mode': 'bpe', 'bpe': '%s-%d' % (mid, k), 'opts': {}}
    what = 'bpe(%r, %r), lists: %r' % (u['text'], tcase['bpe'], sorted(L.lists))
    if k > top:
        r = fs.must(fs.isolated(lambda: refuse(tcase['bpe']), ncpu=1), what)
        require(r == 'refused', what + ': not refused', r)
        labels.add('too many merges refused')
        return
    ranks = L.ranks(k)

    def encode():
        tokens, md = run_mode(tcase, 'bpe')
        return [strip_end(g) for g in group(tokens, md)]
    got = fs.must(fs.isolated(encode, ncpu=1), what)
    exp = expect(tcase, 'bpe')
    require(len(got) == len(exp), what + ': %d full tokens, expected %d' % (len(got), len(exp)))
    for g, f in zip(got, exp):
        want = ([f.text] if f.text in L.never else ref.bpe_subwords(f.text, ranks)) if f.splittable else f.subs
        require(g == want, what + ': %r is encoded as %r, expected %r' % (f.text, g, want))
    labels.add('id used')


def refuse(full_id):
    """in a child: the text API and the command line with an id that must not be accepted"""
    from codeprep.pipeline.bperegistry import InvalidBpeCodesIdError
    import codeprep.api.text as T
    try:
        return repr(T.bpe('foo bar', full_id, 'java'))
    except InvalidBpeCodesIdError:
        pass
    import contextlib
    import io
    import logging
    if full_id.startswith('-'):
        return 'refused'
    from codeprep.cli.spec import parse_and_run
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        parse_and_run(['bpe', full_id, 'foo bar', '-e', 'java'])
    logging.disable(logging.CRITICAL)
    return 'refused' if not out.getvalue() else 'the command line prints ' + out.getvalue()
