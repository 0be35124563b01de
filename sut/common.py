"""Things shared by the PyPy-side checks: violation/skip exceptions, calling the code under test, scratch handling."""
import contextlib
import os
import shutil
import sys
import traceback


class Violation(Exception):
    """the property is broken; the message says how"""


class Skip(Exception):
    """the generated case is outside the property's domain"""


class HarnessError(Exception):
    pass


REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = os.environ.get('VERIF_SCRATCH', '')


def short(x, n=400):
    r = x if isinstance(x, str) else repr(x)
    return r if len(r) <= n else r[:n] + '...(%d chars)' % len(r)


def sut(fn, *args, **kwargs):
    """call the code under test; any exception it lets escape is a violation (the properties promise totality on
    the generated domain)"""
    try:
        return fn(*args, **kwargs)
    except (KeyboardInterrupt, Violation, Skip):
        raise
    except BaseException as e:
        tb = traceback.format_exc(limit=-6)
        raise Violation('%s raised %s: %s\n%s' % (getattr(fn, '__name__', fn), type(e).__name__, short(str(e)), tb))


def sut_exc(fn, *args, **kwargs):
    """call the code under test, returning (value, exception)"""
    try:
        return fn(*args, **kwargs), None
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return None, e


def require(cond, msg, *details):
    if not cond:
        raise Violation(msg + ''.join('\n   ' + short(d, 1200) for d in details))


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'first difference at %d: %r != %r; context %s | %s' % (
                i, x, y, short(repr(a[max(0, i - 3):i + 4])), short(repr(b[max(0, i - 3):i + 4])))
    return 'lengths %d != %d; tails %s | %s' % (len(a), len(b), short(repr(a[len(b):][:6])), short(repr(b[len(a):][:6])))


# ------------------------------------------------------------------ the text API

MODES = ('nosplit', 'basic', 'chars', 'bpe')


def api_kwargs(mode, opts):
    allowed = {
        'nosplit': ('no_spaces', 'no_unicode', 'no_com', 'no_str', 'full_strings', 'max_str_length', 'append_eof'),
        'basic': ('no_spaces', 'no_unicode', 'no_case', 'no_com', 'no_str', 'max_str_length', 'split_numbers',
                  'ronin', 'stem', 'append_eof'),
        'chars': ('no_spaces', 'no_unicode', 'no_com', 'no_str', 'max_str_length', 'append_eof'),
        'bpe': ('no_spaces', 'no_unicode', 'no_com', 'no_str', 'max_str_length', 'append_eof'),
    }[mode]
    return {k: v for k, v in opts.items() if k in allowed and v is not None}


def call_text(text, ext, mode, opts, bpe_id=None, meta=True, **extra):
    """codeprep.api.text.<mode>; returns (tokens, metadata) or tokens"""
    import codeprep.api.text as cp
    kw = api_kwargs(mode, opts)
    kw.update(extra)
    if ext is not None:
        kw['extension'] = ext
    if meta:
        kw['return_metadata'] = True
    fn = getattr(cp, mode)
    return sut(fn, text, bpe_id, **kw) if mode == 'bpe' else sut(fn, text, **kw)


def group(tokens, metadata):
    """full tokens as lists of subtokens, by metadata"""
    b = metadata.word_boundaries
    return [list(tokens[b[i]:b[i + 1]]) for i in range(len(b) - 1)]


END = '</t>'


def strip_end(full_subs):
    """remove the end-of-token mark from the last subtoken (bpe/chars)"""
    if full_subs and full_subs[-1].endswith(END):
        return full_subs[:-1] + [full_subs[-1][:-len(END)]]
    raise Violation('last subtoken of a full token lacks %r: %r' % (END, full_subs))


def unwrap(full_subs):
    if len(full_subs) >= 2 and full_subs[0] == '<w>' and full_subs[-1] == '</w>':
        return full_subs[1:-1]
    return full_subs


def full_texts(tokens, metadata, mode):
    res = []
    for g in group(tokens, metadata):
        if mode in ('bpe', 'chars'):
            g = strip_end(g)
        elif mode == 'basic':
            g = unwrap(g)
        res.append(''.join(g))
    return res


# ------------------------------------------------------------------ scratch

def scratch_path(*parts):
    p = os.path.join(SCRATCH, *parts)
    assert SCRATCH and p.startswith(SCRATCH)
    return p


def wipe(path):
    real = os.path.realpath(path if isinstance(path, str) else os.fsdecode(path))
    root = os.path.realpath(SCRATCH)
    if not (SCRATCH and real.startswith(root + os.sep)):
        raise HarnessError('refusing to wipe %r' % (path,))
    if os.path.islink(path) or os.path.isfile(path):
        os.unlink(path)
    elif os.path.isdir(path):
        _real_rmtree(path)


def fresh(name):
    p = scratch_path(name)
    wipe(p)
    os.makedirs(p)
    return p


_real_rmtree = shutil.rmtree


def guard_destructive_calls():
    """the code under test may delete or rename only inside the scratch directory"""
    root = os.path.realpath(SCRATCH) + os.sep

    def inside(p):
        if isinstance(p, int):
            return True
        q = os.path.abspath(os.fsdecode(p))
        return (os.path.realpath(os.path.dirname(q)) + os.sep + os.path.basename(q)).startswith(root)

    def wrap(mod, name, nargs):
        real = getattr(mod, name)

        def guarded(*a, **k):
            if not k.get('dir_fd') and not k.get('src_dir_fd'):
                for p in a[:nargs]:
                    if not inside(p):
                        raise PermissionError('verif guard: %s(%r) outside the scratch directory' % (name, p))
            return real(*a, **k)
        guarded.__name__ = name
        setattr(mod, name, guarded)
    wrap(shutil, 'rmtree', 1)
    wrap(shutil, 'move', 2)
    for name, n in (('remove', 1), ('unlink', 1), ('rmdir', 1), ('rename', 2), ('replace', 2), ('truncate', 1)):
        wrap(os, name, n)


@contextlib.contextmanager
def cpu_count(n):
    """number of processors the code under test sees (size of its process pools)"""
    real = os.cpu_count
    os.cpu_count = lambda: n
    try:
        yield
    finally:
        os.cpu_count = real
