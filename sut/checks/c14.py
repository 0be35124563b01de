"""the preprocessed corpus mirrors the source tree and holds, per file, what the text API returns"""
import os

from common import Skip, fresh, require, scratch_path, wipe
import fsutil as fs


def run(case):
    fs.reset_home()
    base = fresh('c14')
    root = os.path.join(base, case['name'])
    cfg = case['cfg']
    os.makedirs(root)
    src = fs.plant(root, case['files'])
    want = {}
    if case['single'] and src:
        rel = sorted(src)[0]
        path = os.path.join(fs.b(root), rel)
        try:
            path = path.decode('utf-8')
        except UnicodeDecodeError:
            raise Skip('dataset path not UTF-8')
        rel = os.path.basename(rel)
        want[rel + b'.prep'] = fs.expected_prep(src[os.path.relpath(fs.b(path), fs.b(root))], rel, cfg)
    else:
        path = root
        for rel, data in src.items():
            want[rel + b'.prep'] = fs.expected_prep(data, rel, cfg)
    out = os.path.join(base, 'out')
    os.makedirs(out)

    def go():
        pc = fs.run_corpus(cfg, path, out, suppress=case['suppress'])
        return fs.describe(pc)
    what = '%s of %d file(s), %d process(es)' % (cfg, len(want), case['ncpu'])
    res = fs.must(fs.isolated(go, ncpu=case['ncpu']), what)
    require(os.path.dirname(res['path']) == out, what + ': written to %r instead of %r' % (res['path'], out))
    got = fs.snapshot(res['path'])
    fs.diff_trees(got, want, what)
    listed = sorted(os.path.relpath(os.fsencode(f), os.fsencode(res['path'])) for f in res['files'])
    require(listed == sorted(want), what + ': get_file_iterator lists %r' % listed)
    require(fs.snapshot(root) == src, what + ': the source files were changed')
    wipe(base)
    toks = sum(len(fs.prep_tokens(x)) for x in want.values())
    return {'nontrivial': toks >= 12 and (len(want) >= 2 or case['single']),
            'labels': [fs.cfg_label(cfg), 'single file' if case['single'] else 'files:%d' % min(len(want), 6), 'processes:%d' % case['ncpu']] +
                      (['non-UTF-8 content'] if any(f.get('enc') != 'utf-8' and not f['data'].isascii() for f in case['files']) else [])}
