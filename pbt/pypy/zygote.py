"""Fork server for the code under test (runs under PyPy 3.9).

Protocol, one JSON object per line on stdin/stdout:
  request  {"id": n, "mod": "jobs_db", "fn": "session", "args": {...},
            "fork": true|false, "timeout": seconds, "env": {...}}
  response {"id": n, "ok": value} | {"id": n, "err": traceback}
         | {"id": n, "died": wait status} | {"id": n, "hang": true}

A forked request runs in a fresh child of this process, which has imported
fbuild but has not used it: the child's module state is what a freshly started
fbuild process has.  The child's stdout and stderr go to a scratch file and are
returned under "out".
"""
import importlib
import json
import os
import select
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO_LIB = os.environ.get('PBT_REPO_LIB', '/repo/lib')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO_LIB)
sys.dont_write_bytecode = True

import fbuild
assert os.path.realpath(fbuild.__file__).startswith(os.path.realpath(REPO_LIB)), fbuild.__file__
import fbuild.builders
import fbuild.builders.file
import fbuild.builders.platform
import fbuild.builders.text
import fbuild.context
import fbuild.db
import fbuild.db.database
import fbuild.fnmatch
import fbuild.functools
import fbuild.glob
import fbuild.install
import fbuild.options
import fbuild.path
import fbuild.record
import fbuild.rpc
import fbuild.sched
import fbuild.target
import fbuild.temp
# what sessions need, imported once here
import ctypes, contextlib, copy, io, pickle, sqlite3, threading, queue, random, re, shutil, subprocess  # noqa


def _warm_up():
    """Have the interpreter compile what every session spends its start-up on."""
    import gc
    import inspect
    import tokenize
    import codec, fbuild_types, jobs_db, rt  # noqa
    inspect.getsource(inspect.getsource)
    for i in range(3):
        with open(contextlib.__file__) as f:
            for _ in tokenize.generate_tokens(f.readline):
                pass
    for i in range(30):
        fbuild.options.make_parser().parse_args(['--buildroot=build', '-j1'])
        pickle.dumps(pickle.loads(pickle.dumps([i, {'a': (1, 'x')}])))
    gc.collect()


def _run(req):
    mod = importlib.import_module(req['mod'])
    return getattr(mod, req['fn'])(**req.get('args', {}))


def _child(req, wfd):
    os.setpgid(0, 0)
    out = os.open(req['outfile'], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(out, 1)
    os.dup2(out, 2)
    devnull = os.open(os.devnull, os.O_RDONLY)
    os.dup2(devnull, 0)
    os.environ.update(req.get('env') or {})
    signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    try:
        res = {'ok': _run(req)}
    except BaseException:
        res = {'err': traceback.format_exc()}
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        pass
    data = json.dumps(res).encode()
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os.close(wfd)
    os._exit(0)


def _forked(req, tmp):
    req['outfile'] = os.path.join(tmp, 'out')
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            _child(req, wfd)
        finally:
            os._exit(97)
    os.close(wfd)
    deadline = time.monotonic() + req.get('timeout', 60)
    data = b''
    hang = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hang = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if r:
            d = os.read(rfd, 1 << 16)
            if not d:
                break
            data += d
    os.close(rfd)
    if hang:
        for kill in (os.killpg, os.kill):
            try:
                kill(pid, signal.SIGKILL)
            except OSError:
                pass
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        with open(req['outfile'], 'rb') as f:
            out = f.read().decode('utf-8', 'backslashreplace')
    except OSError:
        out = ''
    if hang:
        return {'hang': True, 'out': out}
    if not data:
        return {'died': status, 'out': out}
    try:
        res = json.loads(data.decode())
    except ValueError:
        return {'died': status, 'out': out}
    res['out'] = out
    return res


def main():
    stdout = os.fdopen(os.dup(1), 'w')
    # nothing but responses goes to the real stdout
    log = os.open(os.devnull, os.O_WRONLY)
    os.dup2(log, 1)
    tmp = tempfile.mkdtemp(prefix='zyg')
    try:
        _warm_up()
    except Exception:
        # only speed is lost
        pass
    try:
        for line in sys.stdin:
            req = json.loads(line)
            if req.get('quit'):
                break
            if req.get('fork', True):
                res = _forked(req, tmp)
            else:
                try:
                    res = {'ok': _run(req)}
                except BaseException:
                    res = {'err': traceback.format_exc()}
            res['id'] = req['id']
            stdout.write(json.dumps(res) + '\n')
            stdout.flush()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()
