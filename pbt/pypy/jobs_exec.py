"""Commands executed through a context (C15)."""
import os
import signal
import subprocess
import sys
import tempfile
import threading
import time

import fbuild
import fbuild.context
from fbuild.path import Path


def _alive(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            return f.read().rsplit(')', 1)[1].split()[0] not in 'ZX'
    except OSError:
        return False


def _one(ctx, root, i, c):
    d = os.path.join(root, 'x%d' % i)
    os.makedirs(d)
    script, report = os.path.join(d, 'script'), os.path.join(d, 'report')
    with open(script, 'w') as f:
        f.write(report + '\n' + '\n'.join(c['script']) + '\n')
    env = {'PBT_SCRIPT': script}
    env.update({k: v for k, v in (c['env'] or {}).items()})
    kw = {}
    for k in ('msg1', 'msg2', 'quieter', 'stdout_quieter', 'stderr_quieter', 'timeout', 'ignore_error', 'color'):
        if k in c:
            kw[k] = c[k]
    if c['input'] is not None:
        kw['input'] = bytes.fromhex(c['input'][0]) * c['input'][1]
    files = []
    if c['stdin'] == 'null':
        kw['stdin'] = subprocess.DEVNULL
    elif c['stdin'] == 'file':
        with open(os.path.join(d, 'in'), 'wb') as f:
            f.write(b'from a file')
        files.append(open(os.path.join(d, 'in'), 'rb'))
        kw['stdin'] = files[-1]
    for s in ('stdout', 'stderr'):
        if c[s] == 'null':
            kw[s] = subprocess.DEVNULL
        elif c[s] == 'file':
            files.append(open(os.path.join(d, s), 'wb'))
            kw[s] = files[-1]
        elif c[s] == 'both':
            kw[s] = subprocess.STDOUT
    if c['libpaths'] is not None:
        kw['runtime_libpaths'] = [Path(p) if n else p for n, p in enumerate(c['libpaths'])]
    if c['cwd']:
        kw['cwd'] = d
    prog = c['prog'] if c['prog'].startswith('/') else os.path.join(d, c['prog'])
    if c['prog'] == 'noexec':
        with open(prog, 'w') as f:
            f.write('x')
    elif c['prog'] == 'garbage':
        with open(prog, 'wb') as f:
            f.write(b'\x01\x02\x03')
        os.chmod(prog, 0o755)
    elif c['prog'] == 'dir':
        os.mkdir(prog)
    args = [os.fsdecode(bytes.fromhex(a)) for a in c['args']]
    if c['form'] == 'str':
        cmd = prog
    elif c['form'] == 'shell':
        cmd = 'exec ' + prog + ' "a b" $PBT_SH'
        kw['shell'] = True
    elif c['form'] == 'tuple':
        cmd = (Path(prog), *args)
    else:
        cmd = [prog] + args
    before = dict(os.environ)
    given = dict(env)
    os.lseek(0, 0, 0)
    t = time.monotonic()
    o = {'root': d, 'environ': [[os.fsencode(k).hex(), os.fsencode(v).hex()] for k, v in before.items()],
         'prog': prog, 'script': script}
    try:
        out, err = ctx.execute(cmd, env=env, **kw)
        o['ok'] = [None if x is None else x.hex() for x in (out, err)]
        o['types'] = [type(x).__name__ for x in (out, err)]
    except fbuild.ExecutionError as e:
        o['exc'] = [type(e).__name__, e.cmd is cmd or e.cmd == cmd, e.returncode,
                    None if e.stdout is None else e.stdout.hex(), None if e.stderr is None else e.stderr.hex()]
        o['str'] = str(e)
    except BaseException as e:
        o['other'] = [type(e).__name__, isinstance(e, OSError), repr(e)[:300]]
    o['time'] = time.monotonic() - t
    for f in files:
        f.close()
    o['files'] = {}
    for s in ('stdout', 'stderr'):
        try:
            with open(os.path.join(d, s), 'rb') as f:
                o['files'][s] = f.read().hex()
        except FileNotFoundError:
            pass
    o['env_kept'] = env == given and before == dict(os.environ)
    o['report'] = []
    if os.path.exists(report):
        with open(report) as f:
            o['report'] = [l.rstrip('\n').split(' ') for l in f]
    pids = [int(bytes.fromhex(r[1])) for r in o['report'] if r[0] in ('pid', 'kid')]
    if c.get('kill'):
        end = time.monotonic() + 10
        while any(map(_alive, pids)) and time.monotonic() < end:
            time.sleep(0.01)
    o['alive'] = [p for p in pids if _alive(p)]
    return o


def run(root, threads, mode, cmds):
    # as Python starts up
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    os.chdir(root)
    # commands that inherit standard input read this
    with open('stdin', 'wb') as f:
        f.write(b'inherited')
    fd = os.open('stdin', os.O_RDONLY)
    os.dup2(fd, 0)
    os.close(fd)
    ctx = fbuild.context.make_default_context(['-j%d' % threads, '--buildroot=build', '--database-engine=cache'])
    ctx.create_buildroot()
    ctx.load_configuration()
    todo = list(enumerate(cmds))
    f = lambda ic: _one(ctx, root, *ic)
    try:
        if mode == 'map':
            return ctx.scheduler.map(f, todo)
        return [f(ic) for ic in todo]
    finally:
        ctx.db.shutdown()
        ctx.scheduler.shutdown()
