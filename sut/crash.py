"""crashes and faults at chosen file operations (native/crashshim.c does the counting and the killing)"""
import mmap
import os
import struct

from common import HarnessError
import fsutil as fs

KINDS = {1: 'open', 2: 'write', 3: 'rename', 4: 'unlink', 5: 'mkdir', 6: 'rmdir', 7: 'truncate'}
NEVER = 1 << 60
_map = None


def _state():
    global _map
    if _map is None:
        if 'crashshim' not in os.environ.get('LD_PRELOAD', ''):
            raise HarnessError('the crash shim is not loaded')
        with open(os.environ['CRASHSHIM_STATE'], 'r+b') as f:
            _map = mmap.mmap(f.fileno(), 4096)
    return _map


class Attempt(object):
    """an isolated run in which file operation number `at` (from 1) kills all its processes or fails

    (idle: a run without `at` may do no file operation at all)"""

    def __init__(self, fn, at=None, mode='kill', err=28, ncpu=1, timeout=60, before=None, idle=False):
        m = _state()
        m[:56] = struct.pack('7q', 0, 1, NEVER if at is None else at, {'kill': 0, 'torn': 1, 'fail': 2}[mode], err, 0, 0)
        m[56:568] = b'\0' * 512
        try:
            self.outcome = fs.isolated(fn, timeout=timeout, ncpu=ncpu, before=before)
        finally:
            self.ops, _, _, _, _, fired, kind = struct.unpack('7q', m[:56])
            self.path = m[56:568].split(b'\0')[0]
            m[:56] = struct.pack('7q', 0, 0, NEVER, 0, 0, 0, 0)
        self.fired = bool(fired)
        self.kind = KINDS.get(kind, '-')
        if at is None and self.outcome.status == 'ok' and self.ops == 0 and not idle:
            raise HarnessError('the crash shim saw no operation')

    def where(self):
        return '%s of %r' % (self.kind, os.fsdecode(self.path)[-90:])


def point(frac, total):
    """the operation to hit, for a generated number 0..999 and the number of operations of an undisturbed run"""
    return 1 + (frac * 617 + 563) % 1000 * total // 1000     # spread: small numbers are generated more often
