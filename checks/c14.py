"""C14: path operations obey the laws of paths."""
import hashlib
import os
import posixpath as pp

from hypothesis import strategies as st

from pbt import fnref, trees
from pbt.core import Fail, Part

ID = 'C14'
LEVEL = 'exploration'
TECHNIQUE = ('property-based testing: generated paths and directory trees, differential against the operating '
             "system's path rules and metamorphic laws between the operations")
NOTE = 'Random search with shrinking, on POSIX path rules only.'
RULE = ('A case of "laws" is a few paths and names; non-trivial: one has two or more components and an '
        'extension or a dot component. A case of "files" is a tree and a series of operations; non-trivial: '
        'the tree has a nested file and three operations succeed.')

SEG = st.one_of(st.sampled_from(['a', 'b', 'foo', 'bar.c', 'x.tar.gz', '.hid', '.hid.c', 'a.', '..', '.', '',
                                 'a b', '...', '.c', '\xe9', '~', '$V', '${V}', '$no', '%s', 'fo', 'a\\b', 'abc']),
                st.text('ab./', max_size=4))


@st.composite
def paths(draw):
    segs = draw(st.lists(SEG, max_size=5))
    return draw(st.sampled_from(['', '', '', '/', '//', '///', './', '../', '/usr/share/', '/usr/share/foo/'])) + '/'.join(segs) + \
        draw(st.sampled_from(['', '', '', '/']))


@st.composite
def law_cases(draw):
    ps = [draw(paths()) for _ in range(draw(st.integers(1, 3)))]
    roots = [draw(st.one_of(paths(), st.sampled_from(['a', 'foo', '/', 'a/', 'foo/'])))]
    for p in ps:
        i = draw(st.integers(0, len(p)))
        roots.append(p[:i])
    return {'paths': ps, 'roots': roots, 'start': draw(paths().filter(bool)),
            'ext': draw(st.sampled_from(['.x', '', '.tar.gz', 'x', '.'])),
            'exts': draw(st.dictionaries(st.sampled_from(['.c', '.gz', '', '.', '.hid', '.x']),
                                         st.sampled_from(['.o', '', '.c']), max_size=3)),
            'prefix': draw(st.sampled_from(['lib', '', '.', 'a/b', 'x.'])),
            'nest': draw(st.lists(st.one_of(paths(), st.lists(paths(), min_size=1, max_size=3)), max_size=4))}


CWD = '/usr/share'
ENV = {'V': 'val/ue', 'HOME': '/home/x'}


def P(s):
    return ['P', str(s)]


def expandvars(p):
    out, i = '', 0
    while i < len(p):
        for v in ('$V', '${V}'):
            if p.startswith(v, i):
                rest = p[i + len(v):i + len(v) + 1]
                if v == '${V}' or not (rest.isalnum() and rest.isascii() or rest == '_'):
                    out += ENV['V']
                    i += len(v)
                    break
        else:
            out += p[i]
            i += 1
    return out


def abspath(p):
    return pp.normpath(pp.join(CWD, p))


def addroot(p, r):
    if p.startswith(r) or p.startswith('/') and p.startswith(pp.join(abspath(r), '')):
        return p
    return pp.join(r, pp.basename(p) if p.startswith('/') else p)


def model(case):
    """What each operation must give, by the rules of the operating system."""
    out = []
    for p in case['paths']:
        head, tail = pp.split(p)
        root, ext = pp.splitext(p)
        w = {'new': P(p), 'ext': ext, 'name': P(tail), 'parent': P(head), 'dirname': P(head), 'basename': P(tail),
             'split': ['T', P(head), P(tail)], 'splitext': ['T', P(root), ext],
             'replaceext': P(root + case['ext']),
             'replaceexts': P(root + case['exts'][ext]) if ext in case['exts'] else P(p),
             'addprefix': P(pp.join(head, case['prefix'] + tail)),
             'isabs': p.startswith('/'), 'abspath': P(abspath(p)), 'normpath': P(pp.normpath(p)),
             'normcase': P(p), 'expandvars': P(expandvars(p)),
             'plus': P(p + 'suffix'), 'div': [P(pp.join(p, q)) for q in case['paths']],
             'rdiv': [P(pp.join(q, p)) for q in case['paths']],
             'splitdrive': ['T', P(''), p], 'hash': True, 'repr': True, 'pickle': P(p),
             'addroot': [P(addroot(p, r)) for r in case['roots']],
             'removeroot': [P(p[len(r):] if p.startswith(r) else p) for r in case['roots']]}
        if p:
            w['relpath'] = P(pp.relpath(abspath(p), abspath(case['start'])))
            w['relpath0'] = P(pp.relpath(abspath(p), CWD))
        if p == '~' or p.startswith('~/'):
            w['expanduser'] = P(ENV['HOME'] + p[1:])
        elif not p.startswith('~'):
            w['expanduser'] = P(p)
        out.append(w)
    return out


def collapse(p):
    """The path with the separators counted as one, except the leading ones."""
    lead = len(p) - len(p.lstrip('/'))
    rest = p[lead:]
    while '//' in rest:
        rest = rest.replace('//', '/')
    return p[:lead] + rest


def run_laws(case, env):
    r = env.call('jobs_path', 'laws', fork=False, cwd=CWD, env_vars=ENV, case=case)
    for p, got, want in zip(case['paths'], r['ops'], model(case)):
        for form in ('obj', 'str'):
            for k, w in want.items():
                if k not in got[form]:
                    continue
                g = got[form][k]
                if k == 'splitdrive' and g[2] == P(p):
                    # the rest of it is a path only if a path was given
                    g = g[:2] + [p]
                if g != (['L'] + w if isinstance(w, list) and w and isinstance(w[0], list) else w):
                    raise Fail('%s of %r (as %s; %s): %r, expected %r' % (k, p, form, case, g, w))
            parts = got[form]['splitall']
            if parts[0] != 'L' or any(x[0] != 'P' for x in parts[1:]):
                raise Fail('splitall of %r (as %s) gives other things than paths: %r' % (p, form, parts))
            comps = [x[1] for x in parts[1:]]
            if collapse(pp.join('', *comps)) != collapse(p) or any('/' in c.lstrip('/') for c in comps) or \
                    any(c.startswith('/') for c in comps[1:]):
                raise Fail('splitall of %r gives %r' % (p, comps))
        if len([c for c in p.split('/') if c]) > 1 and '.' in p:
            env.nontrivial()
        env.label('absolute' if p.startswith('/') else 'relative')
    want = ''
    for x in case['nest']:
        for y in ([x] if isinstance(x, str) else x):
            want = pp.join(want, y)
    if r['nest'] != P(want):
        raise Fail('Path(*%r) is %r, expected %r' % (case['nest'], r['nest'], want))
    if r['common'] != pp.commonprefix(case['paths']):
        raise Fail('commonprefix(%r) is %r' % (case['paths'], r['common']))


# ---------------------------------------------------------------------------

OPS = ['exists', 'lexists', 'isdir', 'isfile', 'islink', 'ismount', 'getsize', 'listdir', 'digest', 'linecount',
       'find', 'findfiles', 'findpat', 'walk', 'readlink', 'realpath', 'makedirs', 'mkdir', 'remove', 'rmdir',
       'removedirs', 'rmtree', 'copy', 'copyfile', 'copytree', 'move', 'rename', 'renames', 'symlink', 'link',
       'samefile', 'chmod', 'access', 'write', 'write', 'getmtime', 'utime', 'copymode', 'stat', 'lstat', 'copy2', 'mkfifo']


@st.composite
def file_cases(draw):
    tree = draw(trees.trees(width=5))
    known = [e[0] for e in tree] + ['new', 'new/x', 'a/b/new', 'a']
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(OPS))
        p = draw(st.sampled_from(known))
        arg = None
        if op in ('copy', 'copyfile', 'copytree', 'move', 'rename', 'renames', 'symlink', 'link', 'samefile',
                  'copymode', 'copy2'):
            arg = draw(st.sampled_from(known))
        elif op in ('find', 'findfiles', 'walk'):
            p = draw(st.sampled_from(['.', '.', p]))
        elif op == 'findpat':
            p = draw(st.sampled_from(['.', '.', p]))
            arg = draw(st.one_of(st.sampled_from(['*', '*.c', 'a*', '{a,b}*']), fnref.patterns(1, 'ab.c', '*?[]{}')))
        elif op == 'write':
            arg = [draw(st.sampled_from(['x', 'y\nz', 'a\nb\nc\n', '\n\n', '', '\x00\xff'])),
                   draw(st.sampled_from([1, 1, 1, 32768, 65536, 65535]))]
        elif op == 'digest':
            arg = draw(st.sampled_from([None, 1, 7, 65536]))
        elif op == 'chmod':
            arg = draw(st.sampled_from([0o644, 0o755, 0o600]))
        ops.append([op, p, arg])
        if op == 'write' and arg[1] > 1 and draw(st.booleans()):
            ops.append(['digest', p, draw(st.sampled_from([None, None, 1000]))])
    return {'tree': tree, 'ops': ops}


def finds(root, p, dirs, pattern):
    """Every path below, not through links."""
    out = []
    full = os.path.join(root, p)
    if os.path.isdir(full):
        for n in os.listdir(full):
            q = pp.join(p, n)
            f = os.path.join(root, q)
            if (dirs or not os.path.isdir(f)) and (pattern is None or fnref.match(n, pattern)):
                out.append(q)
            if os.path.isdir(f) and not os.path.islink(f):
                out += finds(root, q, dirs, pattern)
    return out


def snapshot(root):
    out = []
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            s = os.lstat(p)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out.append([rel, 'l', os.readlink(p)])
            elif os.path.isdir(p):
                out.append([rel, 'd', s.st_mode])
            elif os.path.isfile(p):
                with open(p, 'rb') as f:
                    out.append([rel, 'f', s.st_mode, hashlib.md5(f.read()).hexdigest(), s.st_nlink])
            else:
                out.append([rel, '?', s.st_mode])
    return sorted(out)


def oracle(root, op, p, arg):
    """The operation by Python's own functions; the value in comparable form."""
    import shutil
    full = os.path.join(root, p)
    afull = os.path.join(root, arg) if isinstance(arg, str) else None
    os.chdir(root)
    if op in ('exists', 'lexists', 'isdir', 'isfile', 'islink', 'ismount', 'getsize', 'getmtime'):
        return getattr(os.path, op)(full)
    if op == 'access':
        return os.access(full, os.R_OK)
    if op == 'listdir':
        return sorted(os.listdir(full))
    if op == 'digest':
        with open(full, 'rb') as f:
            return hashlib.md5(f.read()).hexdigest()
    if op == 'linecount':
        with open(full, encoding='utf-8') as f:
            return len(list(f))
    if op in ('find', 'findfiles', 'findpat', 'walk'):
        return sorted(finds(root, p, op != 'findfiles', arg if op == 'findpat' else None))
    if op == 'readlink':
        return os.readlink(full)
    if op == 'realpath':
        return os.path.realpath(full)[len(os.path.realpath(root)):]
    if op == 'makedirs':
        if not os.path.isdir(full):
            os.makedirs(full)
        return None
    if op == 'samefile':
        return os.path.samefile(full, afull)
    if op in ('stat', 'lstat'):
        return getattr(os, op)(full).st_size if not os.path.isdir(full) else 0
    if op == 'chmod':
        os.chmod(full, arg)
        return None
    if op == 'write':
        with open(full, 'wb') as f:
            f.write(arg[0].encode('latin-1') * arg[1])
        return None
    if op == 'utime':
        os.utime(full)
        return None
    if op == 'symlink':
        os.symlink(p, arg)
        return None
    if op == 'copytree' and (os.path.islink(full) or pp.normpath(arg + '/').startswith(pp.normpath(p) + '/')):
        return 'skip'
    if op == 'mkfifo':
        if os.path.lexists(full):
            os.mkfifo(full)
        return 'skip'
    if op in ('mkdir', 'remove', 'rmdir', 'removedirs', 'rename', 'renames', 'link'):
        getattr(os, op)(*([p] if arg is None else [p, arg]))
        return None
    getattr(shutil, op)(*([p] if arg is None else [p, arg]))
    return None


def run_files(case, env):
    base = env.scratch()
    a, b = os.path.join(base, 'aa', 'r'), os.path.join(base, 'bb', 'r')
    try:
        for root in (a, b):
            os.makedirs(root)
            with open(os.path.join(root, '.keep'), 'w'):
                pass
            trees.make(root, case['tree'])
        good = 0
        for i, (op, p, arg) in enumerate(case['ops']):
            if op in ('move', 'rename', 'renames', 'copy', 'copyfile', 'copy2', 'copytree') and '..' in p:
                continue
            if op == 'move' and os.path.islink(os.path.join(a, p)) and \
                    os.path.realpath(os.path.join(a, p)) == os.path.realpath(os.path.join(a, arg)):
                # the versions of shutil do not agree on this
                continue
            try:
                want = oracle(a, op, p, arg)
            except (OSError, ValueError, UnicodeDecodeError) as e:
                want = {'error': 'OSError' if isinstance(e, OSError) else 'ValueError'}
            finally:
                os.chdir('/')
            if want == 'skip':
                continue
            got = env.call('jobs_path', 'file_op', fork=False, root=b, op=op, p=p, arg=arg)
            env.label(op + (' fails' if isinstance(want, dict) else ''))
            good += not isinstance(want, dict)
            where = 'operation %d, %s(%r%s), of %s in %s' % (
                i, op, p, '' if arg is None else ', %r' % (arg,), case['ops'], case['tree'])
            if isinstance(want, float) or op in ('copytree', 'move') and want == got:
                pass
            elif want != got:
                raise Fail('%s: %r, expected %r' % (where, got, want))
            sa, sb = snapshot(a), snapshot(b)
            if sa != sb:
                raise Fail('%s leaves %r, expected %r' % (
                    where, [x for x in sb if x not in sa], [x for x in sa if x not in sb]))
        env.nontrivial(good >= 3 and any('/' in e[0] and e[1] == 'f' for e in case['tree']))
    finally:
        env.clean(base)


PARTS = [
    Part('laws', lambda tier: law_cases(), run_laws, 5000, 200000),
    Part('files', lambda tier: file_cases(), run_files, 3500, 100000),
]
