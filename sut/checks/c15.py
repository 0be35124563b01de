"""which files of the tree are processed: the extension list, nested and linked directories"""
import os
import pathlib

from common import fresh, require, wipe
import fsutil as fs


def selected(root, exts):
    """independent walk: {relative path: content} of the files to be processed"""
    out = {}

    def walk(d, rel):
        for name in os.listdir(d):
            p = os.path.join(d, name)
            r = rel + b'/' + name if rel else name
            if os.path.isdir(p):
                walk(p, r)
            elif not os.path.islink(p) and (not exts or any(name.endswith(b'.' + e) for e in exts)):
                with open(p, 'rb') as f:
                    out[r] = f.read()
    walk(fs.b(root), b'')
    return out


def spelled(form, base, name):
    """the path of the dataset as the caller gives it; the working directory is base"""
    full = os.path.join(base, name)
    return {'absolute': full, 'slash': full + '/', 'relative': name, 'dot': os.path.join('.', name),
            'updown': os.path.join(base, 'elsewhere', '..', name), 'Path': pathlib.Path(full), '.': '.', 'double': base + '//' + name,
            'relative slash': name + '/'}[form]


def run(case):
    fs.reset_home()
    base = fresh('c15')
    root = os.path.join(base, case['name'])
    os.makedirs(root)
    planted = fs.plant(root, case['files'])
    dirs = sorted({b'/'.join(p.split(b'/')[:i]) for p in planted for i in range(1, p.count(b'/') + 1)})
    outside = os.path.join(base, 'elsewhere')
    os.makedirs(outside)
    outside_dirs = []
    for i, files in enumerate(case['outside']):
        d = os.path.join(outside, 'o%d' % i)
        os.makedirs(d)
        fs.plant(d, files)
        outside_dirs.append(d.encode())
    linked_dirs = linked_files = 0
    for l in case['links']:
        at = os.path.join(fs.b(root), dirs[l['at'] % len(dirs)]) if dirs and l['at'] % 3 else fs.b(root)
        p = os.path.join(at, fs.b(l['name']))
        if os.path.lexists(p):
            continue
        if l['to'] == 'dir' and outside_dirs:
            os.symlink(outside_dirs[l['at'] % len(outside_dirs)], p)
            linked_dirs += 1
        elif l['to'] == 'file' and planted:
            os.symlink(os.path.join(fs.b(root), sorted(planted)[l['at'] % len(planted)]), p)
            linked_files += 1
        elif l['to'] == 'nowhere':
            os.symlink(b'does/not/exist', p)
            linked_files += 1
    exts = [e.encode() for e in case['exts']] if case['exts'] else None
    src = selected(root, exts)
    cfg = case['cfg']
    want = {rel + b'.prep': fs.expected_prep(data, rel, cfg) for rel, data in src.items()}
    out = os.path.join(base, 'out')
    os.makedirs(out)
    arg = '|'.join(case['exts']) if case['exts'] else None
    total = len(selected(root, None))
    form = case.get('form', 'absolute')

    def go():
        os.chdir(root if form == '.' else base)
        path = spelled(form, base, case['name'])
        d = fs.describe(fs.run_corpus(cfg, path, 'out' if form == 'relative' else out, extensions=arg, suppress=case['suppress']))
        d['path'] = os.path.abspath(d['path'])
        d['files'] = [os.path.abspath(f) for f in d['files']]
        return d
    what = 'extensions=%r on %d files, path given as %r' % (arg, total, form)
    res = fs.must(fs.isolated(go, ncpu=case['ncpu']), what)
    got = fs.snapshot(res['path'])
    fs.diff_trees(got, want, what)
    listed = sorted(os.path.relpath(os.fsencode(f), os.fsencode(res['path'])) for f in res['files'])
    require(listed == sorted(want), what + ': get_file_iterator lists %r' % listed)
    if not case['suppress']:
        again = fs.must(fs.isolated(go, ncpu=case['ncpu']), what + ', run again')
        require(again == res, what + ': another result when run again', again, res)
        require(fs.snapshot(res['path']) == got, what + ': files changed when run again')
    wipe(base)
    return {'nontrivial': bool(exts) and 0 < len(want) < total or bool(linked_dirs or linked_files) and len(want) >= 1,
            'labels': (['no filter'] if not exts else ['extensions:%d' % len(case['exts']), 'kept some' if 0 < len(want) < total else
                       'kept all' if want else 'kept none']) + (['linked directory'] if linked_dirs else []) +
            (['linked file'] if linked_files else []) + ['path:' + form]}
