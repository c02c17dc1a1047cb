"""C15: executing a command is faithful."""
import os
import signal
import subprocess

from hypothesis import strategies as st

from pbt.core import VERIF, Fail, Part

ID = 'C15'
LEVEL = 'exploration'
TECHNIQUE = ('property-based testing: generated commands, data, environments and ways to end, against what the command '
             'itself reports it was given and what it was told to do')
NOTE = ('Random search with shrinking. The command is a small C program that follows a generated script and reports '
        'what it got; it runs alone and next to others in scheduler tasks. POSIX only.')
RULE = ('A case is one to four commands, one after the other or in parallel; non-trivial: one of them prints or reads '
        'something and ends other than with status 0, times out, or has arguments or an environment of its own.')
ASSUMPTIONS = ['a search path that is appended to is not empty', 'commands end, or go on forever; they do not stop themselves',
               'children stay in the process group of the command']

BYTES = st.one_of(st.binary(max_size=6), st.sampled_from([b'hello\n', b'two\nlines', b'\n\n', b' \n', b'\xff\xfe', b'\xc3\xa9\n',
                                                          b'\xed\xa0\x80', b'\x1b[0m', b'a\x00b', b'\r\n', b'%s %d {}']))
TEXT = st.one_of(st.sampled_from(['a', 'a b', "it's", 'x y\'z"', '', '-x', '*', '$HOME', '\xe9', '\u20ac', '%s', '{}', 'a\nb', '\\']),
                 st.text(st.characters(blacklist_characters='\x00', blacklist_categories=['Cs']), max_size=5))
ARGS = st.one_of(TEXT.map(lambda s: s.encode()), st.binary(max_size=4).map(lambda b: b.replace(b'\0', b'')), st.just(b'x' * 5000))
NAMES = st.sampled_from(['A', 'B', 'PATH', 'HOME', 'LANG', 'a.b', 'with space', '\xe9', 'LD_LIBRARY_PATH', 'SHELL'])


@st.composite
def commands(draw):
    P = lambda *a: draw(st.sampled_from(a))
    script = ['d']
    outs = {'o': b'', 'e': b''}
    inp = P(None, None, 'x', 'x', 'big', 'empty')
    if inp == 'x':
        inp = [draw(BYTES).hex(), draw(st.integers(1, 3))]
    elif inp == 'big':
        inp = [(draw(st.binary(min_size=1, max_size=3))).hex(), P(50000, 100000)]
    elif inp == 'empty':
        inp = ['', 1]
    n = draw(st.integers(0, 4))
    reads = P(True, True, False)
    at = draw(st.integers(0, n))
    for i in range(n + 1):
        if i == at and reads:
            script.append('r')
        if i < n:
            s = P('o', 'o', 'e')
            b = draw(BYTES)
            k = P(1, 1, 1, 1, 2, 40000)
            if b:
                script.append('%s %s %d' % (s, b.hex(), k))
                outs[s] += b * k if k < 40000 else b * k
    if draw(st.integers(0, 9)) == 0:
        script.append('n %d' % P(1, 30))
    kill = draw(st.integers(0, 7)) == 0
    end = ['x', 0]
    c = {}
    if kill:
        if P(True, False):
            script.append('f')
        if P(True, False, False):
            # only the child goes on
            if 'f' not in script:
                script.append('f')
        else:
            script.append('n 60000')
        c['timeout'] = P(0.15, 0.3)
        c['kill'] = True
    else:
        end = P(['x', 0], ['x', 0], ['x', 0], ['x', 1], ['x', 2], ['x', 255], ['x', 127], ['s', 9], ['s', 15], ['s', 6],
                ['s', 2], ['s', 1], ['s', 13])
        if draw(st.integers(0, 5)) == 0:
            c['timeout'] = P(100, 60.5)
    script.append('%s %d' % tuple(end))
    form = P('list', 'list', 'list', 'tuple', 'str', 'shell')
    c.update({
        'script': script, 'input': inp, 'end': end, 'prog': P(*['CMD'] * 12, 'missing', 'noexec', 'garbage', 'dir', 'no/such'),
        'form': form, 'args': [a.hex() for a in draw(st.lists(ARGS, max_size=4))] if form in ('list', 'tuple') else [],
        'env': draw(st.one_of(st.none(), st.dictionaries(NAMES, TEXT.filter(bool), max_size=3))),
        'stdin': P(None, None, 'null', 'file') if inp is None else P(None, None, 'null'),
        'stdout': P(None, None, None, None, 'null', 'file'), 'stderr': P(None, None, None, None, 'null', 'file', 'both'),
        'libpaths': draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(['/a', 'b', '/c d', 'build/lib']), max_size=3))),
        'cwd': P(False, False, True)})
    if c['prog'] != 'CMD' and form == 'shell':
        c['form'] = 'list'
    if kill and 'n 60000' not in script and c['stdout'] is not None and c['stderr'] is not None:
        # nothing holds it up
        c['stdout'] = None
    if P(True, False):
        c['ignore_error'] = P(True, False)
    for k in ('quieter', 'stdout_quieter', 'stderr_quieter'):
        if P(True, False):
            c[k] = draw(st.integers(-1, 3))
    if P(True, False):
        c['msg1'] = draw(TEXT)
        if P(True, False):
            c['msg2'] = draw(TEXT)
        if P(True, False):
            c['color'] = P('compile', 'red', 'unknown')
    return c


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(['plain', 'map']))
    return {'threads': draw(st.sampled_from([1, 2, 4])), 'mode': mode,
            'cmds': draw(st.lists(commands(), min_size=1, max_size=4))}


def setup(env):
    env.cmd = os.path.join(env.base, 'cmd')
    if not os.path.exists(env.cmd):
        subprocess.run(['gcc', '-O1', '-w', '-o', env.cmd, os.path.join(VERIF, 'pbt', 'c', 'cmd.c')], check=True)


def streams(c):
    """What is written to each stream, in order."""
    out, err = b'', b''
    for l in c['script']:
        if l[0] in 'oe':
            b, k = l[2:].split()
            b = bytes.fromhex(b) * int(k)
            if l[0] == 'o' or c['stderr'] == 'both':
                out += b
            else:
                err += b
    return {'stdout': out, 'stderr': err}


def verify(c, o):
    given = dict((bytes.fromhex(k), bytes.fromhex(v)) for k, v in o['environ'])
    extra = {b'PBT_SCRIPT': o['script'].encode()}
    extra.update({k.encode(): v.encode() for k, v in (c['env'] or {}).items()})
    given.update(extra)
    if not o['env_kept']:
        raise Fail('the given environment or that of the process was changed')
    if c['prog'] != 'CMD':
        if not o.get('other') or not o['other'][1]:
            raise Fail('expected an OSError for %s: %s' % (c['prog'], {k: o[k] for k in ('ok', 'exc', 'other') if k in o}))
        return
    if c['libpaths']:
        # nothing to add is nothing to do
        old = given.get(b'LD_LIBRARY_PATH')
        new = ':'.join(c['libpaths']).encode()
        given[b'LD_LIBRARY_PATH'] = new if old is None else old + b':' + new
    rep = {}
    for l in o['report']:
        rep.setdefault(l[0], []).append(bytes.fromhex(l[1]))
    wrote = streams(c)
    want = {}
    for s in ('stdout', 'stderr'):
        want[s] = wrote[s] if c[s] is None else None
    if c['stderr'] == 'both':
        want['stderr'] = None
    result = {k: o[k] for k in ('ok', 'exc', 'other') if k in o}
    small = str(result)[:1500]
    if c.get('kill'):
        if 'exc' not in o or o['exc'][0] != 'ExecutionTimedOut':
            raise Fail('expected to time out: %s' % small)
        if not o['exc'][1]:
            raise Fail('the error does not carry the command: %s' % small)
        for s, got in (('stdout', o['exc'][3]), ('stderr', o['exc'][4])):
            if want[s] is None and got is not None or want[s] is not None and \
                    not want[s].startswith(bytes.fromhex(got or '')):
                raise Fail('%s of the timed out command is %r, it wrote %r' % (s, got, want[s]))
        if o['time'] > 25:
            raise Fail('killed only after %.1f s' % o['time'])
        if o['alive']:
            raise Fail('%d of its processes were not killed' % len(o['alive']))
        return
    kind, n = c['end']
    if kind == 's' and n == signal.SIGINT:
        if result.get('other', [None])[0] != 'KeyboardInterrupt':
            raise Fail('expected a KeyboardInterrupt: %s' % small)
    else:
        status = n if kind == 'x' else -n
        if status and not c.get('ignore_error'):
            if 'exc' not in o or o['exc'][0] != 'ExecutionError':
                raise Fail('expected an ExecutionError: %s' % small)
            if not o['exc'][1] or o['exc'][2] != status:
                raise Fail('the error carries command or status wrongly, status %s expected: %s' % (status, small))
            got = o['exc'][3:]
        else:
            if 'ok' not in o:
                raise Fail('expected no error: %s' % small)
            got = o['ok']
        for s, g in zip(('stdout', 'stderr'), got):
            g = None if g is None else bytes.fromhex(g)
            if g != want[s]:
                raise Fail('%s is %r, the command wrote %r' % (s, str(g)[:600], str(want[s])[:600]))
    for s in ('stdout', 'stderr'):
        if c[s] == 'file' and bytes.fromhex(o['files'][s]) != wrote[s]:
            raise Fail('the file given for %s holds %r' % (s, o['files'][s][:600]))
    args = [bytes.fromhex(a) for a in c['args']]
    if c['form'] == 'shell':
        args = [b'a b']
    if rep['arg'] != [o['prog'].encode()] + args:
        raise Fail('the command got the arguments %r' % (rep['arg'],))
    env = dict(e.split(b'=', 1) for e in rep['env'])
    if c['form'] == 'shell':
        for k in (b'PWD', b'OLDPWD', b'SHLVL', b'_'):
            env.pop(k, None)
            given.pop(k, None)
    odd = [k for k in set(env) | set(given) if env.get(k) != given.get(k)]
    if c['form'] == 'shell':
        # shells drop what they cannot take for a variable
        odd = [k for k in odd if k in env or k.replace(b'_', b'').isalnum()]
    if odd:
        raise Fail('the environment of the command differs in %s' % {
            k.decode('utf-8', 'replace'): (env.get(k), given.get(k)) for k in odd})
    if c['cwd'] and rep['cwd'] != [os.path.realpath(o['root']).encode()]:
        raise Fail('the command ran in %r' % rep['cwd'])
    if 'in' in rep:
        if c['input'] is not None:
            inp = bytes.fromhex(c['input'][0]) * c['input'][1]
        else:
            inp = {'null': b'', 'file': b'from a file', None: b'inherited'}[c['stdin']]
        if rep['in'][0] != inp:
            raise Fail('the command read %r, its input is %r' % (rep['in'][0][:600], inp[:600]))


def run(case, env):
    d = env.scratch()
    try:
        cmds = [dict(c, prog=env.cmd if c['prog'] == 'CMD' else c['prog']) for c in case['cmds']]
        res = env.call('jobs_exec', 'run', root=d, threads=case['threads'], mode=case['mode'], cmds=cmds)
        shared = case['mode'] == 'map' and case['threads'] > 1
        interesting = False
        for i, (c, o) in enumerate(zip(case['cmds'], res)):
            try:
                if shared and c['input'] is None and c['stdin'] is None:
                    # they take from the same standard input
                    o['report'] = [r for r in o['report'] if r[0] != 'in']
                verify(c, o)
            except Fail as e:
                raise Fail('command %d of %d: %s' % (i, len(res), e))
            env.label('killed' if c.get('kill') else 'end %s %d' % tuple(c['end']) if c['prog'] == 'CMD' else c['prog'])
            interesting |= len(c['script']) > 2 and (c.get('kill') or c['end'] != ['x', 0] or bool(c['args'] or c['env']))
        env.label(case['mode'])
        env.nontrivial(interesting)
    finally:
        env.clean(d)


PARTS = [Part('execute', lambda tier: cases(), run, 1200, 30000, setup=setup)]
