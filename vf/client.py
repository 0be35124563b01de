"""Talking to the PyPy worker."""
import json
import os
import select
import shutil
import signal
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PYPY = os.environ.get('VERIF_PYPY', '/opt/venv-pypy/bin/pypy3')
WORKER = os.path.join(VERIF, 'sut', 'worker.py')
SHIM = os.path.join(VERIF, 'native', 'build', 'crashshim.so')
REPO = os.environ.get('VERIF_REPO', '/repo')


class WorkerDied(Exception):
    pass


class WorkerHung(Exception):
    pass


def worker_env(scratch, preload=False):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'LANG', 'VERIF_SEED', 'VERIF_TIER')}
    home = os.path.join(scratch, 'home')
    tmp = os.path.join(scratch, 'tmp')
    for d in (home, tmp, os.path.join(scratch, 'cwd')):
        os.makedirs(d, exist_ok=True)
    env.update(HOME=home, TMPDIR=tmp, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8',
               PYTHONIOENCODING='utf-8', VERIF_SCRATCH=scratch, VERIF_REPO=REPO, COLUMNS='80')
    if preload:
        env['LD_PRELOAD'] = SHIM
        env['CRASHSHIM_ROOT'] = scratch
        env['CRASHSHIM_STATE'] = os.path.join(scratch, 'crashshim.state')
        with open(env['CRASHSHIM_STATE'], 'wb') as f:
            f.write(b'\0' * 4096)
    return env


class Worker(object):
    def __init__(self, preload=False):
        self.preload = preload
        self.scratch = tempfile.mkdtemp(prefix='verif-w-')
        env = worker_env(self.scratch, preload)
        if os.environ.get('VERIF_DEBUG'):
            env['VERIF_STDERR'] = os.path.join(os.environ['VERIF_DEBUG'], 'worker.err')
        self.p = subprocess.Popen([PYPY, '-B', WORKER, '--serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get('VERIF_DEBUG') else subprocess.DEVNULL,
                                  cwd=os.path.join(self.scratch, 'cwd'), env=env, start_new_session=True)
        self.buf = b''
        try:
            if not self._read(180).get('ready'):
                raise WorkerDied('bad greeting')
        except BaseException:
            self.close()
            raise

    def _read(self, timeout):
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            r, _, _ = select.select([fd], [], [], timeout)
            if not r:
                raise WorkerHung('no answer in %d s' % timeout)
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                raise WorkerDied('worker ended (status %r)' % self.p.poll())
            self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def ask(self, req, timeout):
        try:
            self.p.stdin.write(json.dumps(req).encode() + b'\n')
            self.p.stdin.flush()
        except OSError as e:
            raise WorkerDied(str(e))
        return self._read(timeout)

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass
        shutil.rmtree(self.scratch, ignore_errors=True)


def replay(check, cases, timeout, preload=False):
    """run the cases, in order, in a fresh worker; -> ('ok'|'violated'|'error'|'hung'|'died', message, index)"""
    try:
        w = Worker(preload)
    except (WorkerDied, WorkerHung) as e:
        return 'error', 'worker does not start: %s' % e, -1
    try:
        for i, case in enumerate(cases):
            try:
                r = w.ask({'check': check, 'case': case}, timeout)
            except WorkerHung as e:
                return 'hung', str(e), i
            except WorkerDied as e:
                return 'died', str(e), i
            if 'error' in r:
                return 'error', r['error'], i
            if not r['ok']:
                return 'violated', r['msg'], i
        return 'ok', '', -1
    finally:
        w.close()
