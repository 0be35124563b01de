"""learn-bpe that is killed at any point leaves no incomplete codes; running it again learns the right ones"""
import os

import learn
from common import Skip, fresh, require, wipe
from crash import Attempt, point
import fsutil as fs


def run(case):
    fs.reset_home()
    base = fresh('c26')
    name = 'proj'
    root = os.path.join(base, name)
    os.makedirs(root)
    fs.plant(root, case['files'])
    fs.plant(root, [{'path': ['zz.java'], 'data': 'lala lala_x lalala\n'}])
    fs.set_times(root, 1300000000)
    nou, ncpu = case['no_unicode'], case['ncpu']
    L = learn.Learned(root, None, nou)
    if '' in L.counts:
        raise Skip('a keyword with several spaces inside')
    codes_id = case['id'] or name + ('_nounicode' if nou else '')

    def command(n):
        def go():
            learn.run_command(learn.learn_command(root, n, None, nou, case['id']))
        return go

    def result(n):
        def go():
            from codeprep.pipeline import bperegistry as R, vocabloader as V
            m = R.get_max_merges(R.get_dataset_bpe_dir(codes_id), limit=n)
            return {'state': learn.state_of(codes_id), 'm': m, 'merges': learn.list_of(codes_id, m), 'vocab': V.bpe(codes_id, m)}
        return go

    def available():
        """what can be used, if anything: {number of merges: list}"""
        from codeprep.pipeline import bperegistry as R
        try:
            d = R.get_dataset_bpe_dir(codes_id)
        except R.InvalidBpeCodesIdError:
            return {'lists': {}, 'shown': R.format_available_merge_list_ids() if os.path.isdir(R.USER_BPE_DIR) else ''}
        res, limit = {}, None
        while True:
            m = R.get_max_merges(d) if limit is None else R.get_max_merges(d, limit=limit)
            if not m:
                break
            from codeprep.pipeline import vocabloader as V
            res[str(m)] = [learn.list_of(codes_id, m), V.bpe(codes_id, m), sorted(V.nonbpe(codes_id))]
            limit = m - 1
        return {'lists': res, 'shown': R.format_available_merge_list_ids()}

    # an undisturbed run, to count the operations
    ops = {}
    for n in case['ns']:
        a = Attempt(command(n), ncpu=ncpu, idle=bool(ops))
        fs.must(a.outcome, 'learn-bpe %d' % n)
        ops[n] = max(ops.get(n, 0), a.ops)
    fs.reset_home()
    hits, labels = [], []
    for i, n in enumerate(case['ns']):
        for c in case['crashes'][i::len(case['ns'])]:
            k = point(c['at'], ops[n])
            a = Attempt(command(n), at=k, mode=c['mode'], ncpu=ncpu)
            what = 'learn-bpe %d (%s, %d of about %d)' % (n, c['mode'], k, ops[n]) + (', hit at the ' + a.where() if a.fired else '')
            require(a.outcome.status != 'hung', what + ': never ends', a.outcome.text)
            require(a.fired or a.outcome.status == 'ok', what + ': ended with %s although nothing happened' % a.outcome.status, a.outcome.text)
            if a.outcome.status != 'ok':
                hits.append('%s %s' % (c['mode'], a.where()))
                p = a.path
                labels.append('hit:%s, %s' % (a.kind, 'codes' if b'/bpe/' in p else 'vocabulary' if b'vocab' in p else 'datasets'))
            r = fs.must(fs.isolated(available, ncpu=1), what + ': looking up the codes afterwards')
            for m, (raw, vocab, never) in r['lists'].items():
                w = what + ', list of %s merges' % m
                merges = learn.as_merges(raw)
                require(len(merges) == int(m), w + ': has %d merges' % len(merges), merges)
                end = learn.follow(L.start, merges, w)
                require(vocab == learn.subword_counts(end, L.counts, L.never), w + ': subword counts are wrong',
                        learn.diff(vocab, learn.subword_counts(end, L.counts, L.never)))
                require(set(never) == L.never, w + ': never-split words are wrong', sorted(set(never) ^ L.never))
            require(r['lists'] or '[1..' not in r['shown'], what + ': ids are shown but cannot be used', r['shown'])
        what = 'learn-bpe %d after %d crash(es) %r' % (n, len(hits), hits)
        fs.must(fs.isolated(command(n), ncpu=ncpu), what)
        r = fs.must(fs.isolated(result(n), ncpu=1), what)
        want = L.learned(n, r['state'], r['m'], r['merges'], what)
        require(r['vocab'] == want, what + ': vocabloader.bpe() is not the count of the subwords', learn.diff(r['vocab'], want))
    wipe(base)
    return {'nontrivial': bool(hits), 'labels': labels + ['crashes:%d' % len(hits), 'learned:%d' % len(case['ns'])]}
