"""C17: installing puts exactly the requested files in place."""
import os
import stat

from hypothesis import strategies as st

from pbt.core import Fail, Part

ID = 'C17'
LEVEL = 'exploration'
TECHNIQUE = ('stateful property-based testing: generated install requests, sources and previous states of the destination, '
             'installed by an unprivileged user and compared with a model of the whole tree')
NOTE = ('Random search with shrinking. The code runs as a user who owns nothing but the scratch directory. Polkit is played '
        'by a program that makes the destination writable and runs what it is given.')
RULE = ('A case is a few sessions of changes, install requests and an install; non-trivial: two or more different sources '
        'installed, and a target that existed before with other content, or is a link, or was asked for with permissions.')
ASSUMPTIONS = ['no two requests of one install need the same path as a file and as a directory',
               'directories in the destination are not links to the outside, and no directory is in the place of a target',
               'subdirectories do not leave the destination with ..',
               'the destination directory exists if it takes more rights to write in it',
               'sources are readable, and are not hard links to their targets']
NOBODY = 65534
SOURCES = ['a', 'b.txt', 'sub/c', 'sub/d e', 'sub/\xe9']
SUBDIRS = ['bin', 'share/app', '', '.', './lib', 'lib/', 'share//x', 'share/../lib', '/etc', '/', '/opt/x/', '//srv/y', '///',
           '/usr/bin', 'a b']
PREFIXES = ['usr', '/usr', '/usr/local', '', '/', 'opt//pre/', '//usr', './usr']
DESTDIRS = ['@ROOT/dest', 'dest', 'dest/', './dest', 'dest/deep/er', '@ROOT//dest']
MODES = [0o644, 0o755, 0o600, 0o444, 0o555, 0o400, 0o4755, 0o2750]
TEXTS = ['', 'one', 'two', 'x' * 100000, '\x00\xff\n']
NAMES = ['new', 'a', 'n w', '.hidden']


@st.composite
def cases(draw, how):
    def pick(xs):
        return draw(st.sampled_from(xs))

    def source():
        if pick([False, False, True]):
            return ['l', pick(['a', 'nowhere', '../b.txt', '@ROOT/out/secret', 'sub', 'c'])]
        return ['f', pick(TEXTS), pick(MODES)]

    def request():
        return {'source': pick(SOURCES), 'abs': pick([False, True]), 'subdir': pick(SUBDIRS),
                'rename': pick([None, None] + NAMES), 'perms': pick([None, None] + MODES)}
    prefix, destdir = pick(PREFIXES), pick([x for x in DESTDIRS if how == 'direct' or 'deep' not in x])
    pool = [request() for _ in range(draw(st.integers(1, 4)))]
    sources = {s: ['f', 'content of ' + s, pick([0o644, 0o755])] for s in SOURCES}
    for s in {r['source'] for r in pool}:
        sources[s] = source()
    sessions = []
    for n in range(draw(st.integers(1, 3))):
        edits = []
        for _ in range(draw(st.integers(0, 3))):
            k = draw(st.integers(0, 3))
            if k == 0 and n:
                edits.append(['source', pick(SOURCES), source()])
            elif k == 1:
                edits.append(['put', pick(['other', 'bin/tool', 'usr/bin/a', 'usr/lib/z', 'etc/x']), pick(TEXTS), pick(MODES)])
            elif k == 2:
                r = draw(st.integers(0, len(pool) - 1))
                edits.append(['left', r, pick(['file', 'file', 'out', 'dangling', 'other', 'source', 'hard', 'dir-link', 'gone']),
                              pick(MODES)])
        sessions.append({'edits': edits,
                         'requests': [draw(st.integers(0, len(pool) - 1)) for _ in range(draw(st.integers(0, 4)))]})
    return {'how': how if how != 'direct' or pick([0, 0, 0, 1]) == 0 else 'command', 'prefix': prefix,
            'destdir': destdir, 'paths': pick([False, True]), 'pool': pool, 'sources': sources, 'sessions': sessions}


def target(case, r):
    """Where the requested file is to be, relative to the root."""
    dest = case['destdir'].replace('@ROOT/', '')
    sub = r['subdir'] if r['subdir'].startswith('/') else case['prefix'] + '/' + r['subdir']
    name = r['rename'] or os.path.basename(r['source'])
    return os.path.normpath('./' + dest + '/' + sub + '/' + name)


def snapshot(d):
    """Every file and link below d, not counting what the build itself writes."""
    out = {}
    for p, dirs, files in os.walk(d):
        if p == d:
            dirs[:] = [x for x in dirs if x not in ('build', 'tools', '__pycache__')]
        for n in dirs + files:
            f = os.path.join(p, n)
            rel = os.path.relpath(f, d)
            s = os.lstat(f)
            if stat.S_ISLNK(s.st_mode):
                out[rel] = ('link', os.readlink(f))
            elif stat.S_ISREG(s.st_mode) and rel != 'fbuildroot.py':
                with open(f, 'rb') as fp:
                    out[rel] = ('file', fp.read().decode('latin-1'), oct(stat.S_IMODE(s.st_mode)))
    return out


def write(root, path, what):
    """Put a file or link at a path, in place of what is there."""
    f = os.path.join(root, path)
    d = os.path.dirname(f)
    made = []
    while not os.path.isdir(d):
        made.append(d)
        d = os.path.dirname(d)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    if os.path.lexists(f):
        os.remove(f)
    if what[0] == 'l':
        os.symlink(what[1].replace('@ROOT', root), f)
    else:
        with open(f, 'wb') as fp:
            fp.write(what[1].encode('latin-1'))
        os.chown(f, NOBODY, NOBODY)
        os.chmod(f, what[2])
    for m in made:
        os.chown(m, NOBODY, NOBODY)
    os.lchown(f, NOBODY, NOBODY)
    if what[0] != 'l':
        os.chmod(f, what[2])


def fits(case, paths, root):
    """None of the paths is a directory, or below a file, in the tree or among each other."""
    for p in paths:
        f = os.path.join(root, p)
        if os.path.isdir(f) and not os.path.islink(f):
            return False
        d = os.path.dirname(p)
        while d:
            f = os.path.join(root, d)
            if d in paths or os.path.lexists(f) and (os.path.islink(f) or not os.path.isdir(f)):
                return False
            d = os.path.dirname(d)
    return True


def run(case, env):
    d = env.scratch()
    try:
        os.chmod(d, 0o755)
        os.chown(d, NOBODY, NOBODY)
        write(d, 'out/secret', ['f', 'not yours', 0o644])
        write(d, 'out/deep/keep', ['f', 'not yours', 0o600])
        for s, what in case['sources'].items():
            write(d, s, what)
        if case['how'] == 'pkexec':
            os.makedirs(d + '/tools')
            with open(d + '/tools/pkexec', 'w') as f:
                f.write('#!/bin/sh\nchmod 755 %s/dest\nexec "$@"\n' % d)
            os.chmod(d + '/tools/pkexec', 0o755)
            os.makedirs(d + '/dest')
            os.chown(d + '/dest', NOBODY, NOBODY)
        seen, replaced, special = set(), False, False
        for s in case['sessions']:
            requests = [case['pool'][r] for r in s['requests']]
            for e in s['edits']:
                if e[0] == 'source':
                    write(d, e[1], e[2])
                elif e[0] == 'put':
                    p = 'dest/' + e[1]
                    if fits(case, {p} | {target(case, r) for r in case['pool']}, d):
                        write(d, p, ['f', e[2], e[3]])
                elif e[0] == 'left':
                    r = case['pool'][e[1]]
                    p = target(case, r)
                    if not fits(case, {p}, d):
                        continue
                    if e[2] == 'file':
                        write(d, p, ['f', 'left over', e[3]])
                    elif e[2] == 'hard':
                        write(d, p, ['f', '', 0o644])
                        os.remove(os.path.join(d, p))
                        os.link(d + '/out/secret', os.path.join(d, p))
                    elif e[2] == 'gone':
                        if os.path.lexists(os.path.join(d, p)):
                            os.remove(os.path.join(d, p))
                    else:
                        write(d, p, ['l', {'out': '@ROOT/out/secret', 'dangling': 'no/where', 'other': 'other',
                                           'source': '@ROOT/' + r['source'], 'dir-link': '@ROOT/out/deep'}[e[2]]])
            # the domain: requests that have files to install, and room for them
            requests = [r for r in requests if not r['source'] == target(case, r)]
            while requests and not fits(case, {target(case, r) for r in requests}, d):
                requests.pop()
            before = snapshot(d)
            want = dict(before)
            for r in requests:
                src, dst = before[r['source']], target(case, r)
                if src[0] == 'file' and r['perms'] is not None:
                    src = src[:2] + (oct(r['perms']),)
                replaced |= dst in want and want[dst][:2] != src[:2]
                special |= src[0] == 'link' or r['perms'] is not None
                seen.add(r['source'])
                want[dst] = src
            for times in (1, 2):
                if case['how'] == 'pkexec':
                    os.chmod(d + '/dest', 0o555)
                res = env.call('jobs_install', 'session', root=d, case=case, requests=requests)
                if res['status'] != 0:
                    raise Fail('installing failed (%r): %s' % (res['status'], res['error'][-2000:]))
                got = snapshot(d)
                if got != want:
                    diff = {p: (got.get(p), want.get(p)) for p in {**got, **want} if got.get(p) != want.get(p)}
                    raise Fail('after install %d, (is, should be): %s' % (times, str(diff)[:2000]))
        env.label(case['how'])
        env.nontrivial(len(seen) >= 2 and (replaced or special))
    finally:
        env.clean(d)


def setup(env):
    d = env.base
    while d not in ('/', '/tmp', '/dev/shm'):
        os.chmod(d, 0o711)
        d = os.path.dirname(d)
        if os.path.basename(d) in ('tmp', 'shm'):
            break


PARTS = [Part('install', lambda tier: cases('direct'), run, 1000, 30000, setup=setup),
         Part('pkexec', lambda tier: cases('pkexec'), run, 40, 800, setup=setup)]
