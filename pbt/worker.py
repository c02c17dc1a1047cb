"""Client of the PyPy fork server (pypy/zygote.py)."""
import json
import os
import select
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = '/opt/venv-pypy/bin/python'


def child_env(**extra):
    env = {
        'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'HOME': '/root', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYPY_GC_NURSERY': '1M', 'TMPDIR': os.environ.get('TMPDIR', '/tmp'),
    }
    if 'PBT_REPO_LIB' in os.environ:
        env['PBT_REPO_LIB'] = os.environ['PBT_REPO_LIB']
    env.update(extra)
    return env


class WorkerError(Exception):
    """The harness failed; never a verdict."""


class Hang(Exception):
    """The code under test did not answer in the time allowed."""

    def __init__(self, out=''):
        super().__init__('no answer in the time allowed')
        self.out = out


class Died(Exception):
    """The process running the code under test ended without an answer."""

    def __init__(self, status, out=''):
        super().__init__('process ended with wait status %r; output: %s' % (status, out[-2000:]))
        self.status = status
        self.out = out


class JobError(Exception):
    """An exception escaped the job (traceback in str)."""


class Worker:
    def __init__(self, timeout=60, env=None):
        self.timeout = timeout
        self.extra_env = env or {}
        self.proc = None
        self.n = 0
        self.calls = 0

    def start(self):
        self.proc = subprocess.Popen(
            [PYPY, os.path.join(HERE, 'pypy', 'zygote.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd='/',
            env=child_env(**self.extra_env))
        self.buf = b''

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.write(b'{"quit": true}\n')
                self.proc.stdin.flush()
                self.proc.stdin.close()
                self.proc.wait(5)
            except Exception:
                self.proc.kill()
                self.proc.wait()
            self.proc = None

    def kill(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc = None

    def _readline(self, deadline):
        fd = self.proc.stdout.fileno()
        while b'\n' not in self.buf:
            left = deadline - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if r:
                d = os.read(fd, 1 << 20)
                if not d:
                    raise WorkerError('fork server ended')
                self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return line

    def request(self, mod, fn, *, fork=True, timeout=None, env=None, **args):
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        self.n += 1
        self.calls += 1
        timeout = timeout or self.timeout
        req = {'id': self.n, 'mod': mod, 'fn': fn, 'args': args, 'fork': fork, 'timeout': timeout}
        if env:
            req['env'] = env
        self.proc.stdin.write(json.dumps(req).encode() + b'\n')
        self.proc.stdin.flush()
        line = self._readline(time.monotonic() + timeout + 30)
        if line is None:
            self.kill()
            raise Hang()
        res = json.loads(line)
        if res['id'] != self.n:
            self.kill()
            raise WorkerError('protocol out of step')
        return res

    def call(self, mod, fn, **kw):
        """Run a job and return its value; exceptions say how it failed."""
        res = self.request(mod, fn, **kw)
        if 'ok' in res:
            return res['ok']
        if res.get('hang'):
            raise Hang(res.get('out', ''))
        if 'died' in res:
            raise Died(res['died'], res.get('out', ''))
        raise JobError(res['err'] + '\n--- output ---\n' + res.get('out', '')[-2000:])
