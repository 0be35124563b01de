"""datasets on disk, isolated runs of the corpus pipeline, and what the pipeline has to write"""
import json
import os
import select
import signal
import sys
import time
import traceback

import ref
import spiral_stub
from common import (HarnessError, Skip, Violation, api_kwargs, call_text, group, require, scratch_path, short, wipe, SCRATCH)

spiral_stub.install()


# ------------------------------------------------------------------ isolated runs

class Outcome(object):
    def __init__(self, status, value=None, text=''):
        self.status = status          # ok | raised | killed | hung
        self.value = value
        self.text = text


def isolated(fn, timeout=60, ncpu=2, before=None):
    """run fn() in a forked child that leads its own process group; everything it started is killed at the end"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            os.setsid()
            if ncpu:
                os.cpu_count = lambda: ncpu
            if before:
                before()
            try:
                out = {'status': 'ok', 'value': fn()}
            except Violation as e:
                out = {'status': 'violation', 'text': str(e)}
            except Skip as e:
                out = {'status': 'skip', 'text': str(e)}
            except HarnessError as e:
                out = {'status': 'harness', 'text': traceback.format_exc()}
            except BaseException as e:
                out = {'status': 'raised', 'text': '%s: %s\n%s' % (type(e).__name__, short(str(e)), traceback.format_exc(limit=-6))}
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    limit = time.time() + timeout
    hung = False
    try:
        while True:
            left = limit - time.time()
            if left <= 0:
                hung = True
                break
            ready, _, _ = select.select([r], [], [], min(left, 0.5))
            if ready:
                chunk = os.read(r, 1 << 16)
                if not chunk:
                    break
                buf += chunk
                try:
                    json.loads(buf)
                    break
                except ValueError:
                    pass
            else:
                done, st = os.waitpid(pid, os.WNOHANG)
                if done:
                    pid = None
                    break
    finally:
        os.close(r)
        if pid is not None:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
    if hung:
        return Outcome('hung', text='no end after %d s' % timeout)
    if not buf:
        return Outcome('killed')
    out = json.loads(buf)
    if out['status'] == 'violation':
        raise Violation(out['text'])
    if out['status'] == 'skip':
        raise Skip(out['text'])
    if out['status'] == 'harness':
        raise HarnessError(out['text'])
    return Outcome(out['status'], out.get('value'), out.get('text', ''))


def must(outcome, what):
    require(outcome.status == 'ok', '%s: %s' % (what, {'raised': 'raised an exception', 'hung': 'never ends', 'killed': 'ended abruptly'}
                                                 .get(outcome.status, outcome.status)), outcome.text)
    return outcome.value


# ------------------------------------------------------------------ home and trees

def reset_home():
    for d in ('.cache', '.config'):
        wipe(os.path.join(os.environ['HOME'], d))


def b(name):
    return os.fsencode(name)


def write_file(path, f):
    data = encode(f)
    with open(path, 'wb') as o:
        o.write(data)


def encode(f):
    enc = f.get('enc', 'utf-8')
    data = f['data']
    if f.get('more'):
        unit, n = f['more']
        data += unit * n + f['tail']
    return data.encode('utf-8') if enc == 'utf-8' else data.encode('latin-1', 'replace')


def plant(root, files):
    """write the files of a spec; -> {relative path (bytes): content (bytes)}; entries clashing with earlier ones are left out"""
    out = {}
    taken_dirs = set()
    for f in files:
        parts = [b(p) for p in f['path']]
        rel = b'/'.join(parts)
        pres = [b'/'.join(parts[:i]) for i in range(1, len(parts))]
        if rel in out or rel in taken_dirs or any(p in out for p in pres):
            continue
        full = os.path.join(b(root), rel)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        taken_dirs.update(pres)
        write_file(full, f)
        out[rel] = encode(f)
    return out


def set_times(root, t):
    """one modification time for everything below and including root"""
    for d, dirs, files in os.walk(b(root), topdown=False):
        for n in files:
            os.utime(os.path.join(d, n), (t, t), follow_symlinks=False)
        os.utime(d, (t, t))
    os.utime(b(root), (t, t))


def snapshot(root):
    """{relative path: bytes} of all regular files"""
    out = {}
    root = b(root)
    for d, dirs, files in os.walk(root):
        for n in files:
            p = os.path.join(d, n)
            if os.path.isfile(p):
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, root)] = f.read()
    return out


# ------------------------------------------------------------------ the corpus API and its oracle

def corpus_kwargs(mode, opts):
    kw = api_kwargs(mode, opts)
    kw.pop('append_eof', None)
    return kw


def run_corpus(cfg, path, out, calc_vocab=False, extensions=None, suppress=False):
    """codeprep.api.corpus.<mode>; -> dict describing the returned corpus"""
    import codeprep.api.corpus as C
    kw = corpus_kwargs(cfg['mode'], cfg['opts'])
    kw.update(output_path=out, calc_vocab=calc_vocab, extensions=extensions)
    if suppress:
        kw['suppress_caching'] = True
    if cfg['mode'] == 'bpe':
        pc = C.bpe(path, cfg['bpe'], **kw)
    else:
        pc = getattr(C, cfg['mode'])(path, **kw)
    return pc


def describe(pc):
    return {'path': pc.path_to_prep_dataset, 'files': sorted(os.fsdecode(f) for f in pc.get_file_iterator())}


def decode_source(data):
    try:
        text = data.decode('utf-8')
    except UnicodeDecodeError:
        text = data.decode('latin-1')
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    return text[:-1] if text.endswith('\n') else text


_memo = {}


def extension(name):
    return os.fsdecode(os.path.splitext(os.path.basename(name))[1])[1:]


def expected_prep(data, name, cfg):
    """content of the .prep file for one source file: the text API's tokens, the last line break kept, <EOF>"""
    ext = extension(name)
    opts = dict(corpus_kwargs(cfg['mode'], cfg['opts']))
    key = (data, ext, cfg['mode'], cfg.get('bpe'), json.dumps(opts, sort_keys=True))
    if key in _memo and not cfg.get('custom'):
        return _memo[key]
    text = decode_source(data)
    try:
        nodes = ref.parse(text, ext, strip_trailing_newline=False)
    except ref.LexerFailure:
        raise Skip('the lexer itself fails')
    tokens, md = call_text(text, ext, cfg['mode'], dict(opts, append_eof=True), cfg.get('bpe'))
    words = group(tokens, md)
    last_nl = bool(nodes) and nodes[-1].kind == 'nl' and not opts.get('no_spaces')
    if last_nl:
        words.insert(len(words) - 1, ['\n</t>' if cfg['mode'] in ('bpe', 'chars') else '\n'])
    line = ' '.join(s for w in words for s in w)
    res = line.encode('unicode-escape') + b'\n'
    if len(_memo) > 3000:
        _memo.clear()
    _memo[key] = res
    return res


def prep_tokens(data):
    """tokens of a .prep file as they are separated in the file"""
    return [t for line in data.decode('ascii').split('\n')[:-1] for t in line.split(' ')]


def diff_trees(got, want, what):
    missing = sorted(set(want) - set(got))
    extra = sorted(set(got) - set(want))
    require(not missing, what + ': missing output %r' % missing[:4], 'present: %r' % sorted(got)[:8])
    require(not extra, what + ': unexpected output %r' % extra[:4], 'expected: %r' % sorted(want)[:8])
    for k in sorted(want):
        require(got[k] == want[k], what + ': wrong content of %r' % k, 'got      %r' % got[k][:600], 'expected %r' % want[k][:600])


def cfg_label(cfg):
    return 'mode:' + cfg['mode'] + (':' + cfg['bpe'] if cfg['mode'] == 'bpe' else '')
