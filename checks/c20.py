"""C20: platform options and program lookup are exact."""
import os

from hypothesis import strategies as st

from pbt.core import Fail, Part

ID = 'C20'
LEVEL = 'exploration'
TECHNIQUE = ('property-based testing against reference models: generated platforms, options, search paths, versions and '
             'systems; for builders, sequences of calls over several processes')
NOTE = 'Random search with shrinking.'
RULE = ('A case is a list of options and values, a file tree and names to look up, or versions and requirements; '
        'non-trivial: two or more options apply to the same key, the second or a later name or directory has the program or '
        'something that looks like it, or two requirements at once.')
ASSUMPTIONS = ['values and what is added to or removed from them have the same type, or the value is missing',
               'characters are removed from strings one at a time',
               'versions whose first difference is not numeric are not compared',
               'parse_platform_options changes the given values themselves, as its unit test has it']
TAGS = ['posix', 'linux', 'windows', 'mingw', 'clang', 'bsd']
KEYS = ['flags', 'x']


def enc(v):
    for t, n in ((list, 'L'), (tuple, 'T')):
        if isinstance(v, t):
            return [n] + [enc(x) for x in v]
    for t, n in ((frozenset, 'F'), (set, 'S')):
        if isinstance(v, t):
            return [n] + sorted((enc(x) for x in v), key=repr)
    if isinstance(v, dict):
        return ['D'] + sorted(([enc(k), enc(x)] for k, x in v.items()), key=repr)
    return v


def dec(v):
    if not isinstance(v, list):
        return v
    if v[0] == 'D':
        return {dec(k): dec(x) for k, x in v[1:]}
    return {'L': list, 'T': tuple, 'S': set, 'F': frozenset}[v[0]](dec(x) for x in v[1:])


@st.composite
def options(draw):
    """(options, kwargs): one type per key."""
    def pick(xs):
        return draw(st.sampled_from(xs))
    types = {k: pick(['L', 'L', 'T', 'S', 's']) for k in KEYS}

    def value(k, one=False):
        if types[k] == 's':
            return pick(['a', 'b', '-']) if one else pick(['', 'a', 'ab', 'ba-', '-O'])
        xs = draw(st.lists(st.sampled_from(['-a', '-b', '-c', 'd', 1, 2]), max_size=3))
        return [types[k]] + (sorted(set(xs), key=repr) if types[k] == 'S' else xs)
    opts = ['L']
    for _ in range(draw(st.integers(0, 5))):
        matcher = [pick(['S', 'S', 'L', 'T', 'F'])] + sorted({pick(['', '', '!']) + pick(TAGS) for _ in range(draw(st.integers(0, 2)))})
        d = ['D']
        for k in sorted({pick(KEYS) for _ in range(draw(st.integers(1, 2)))}):
            op = pick(['', '+', '+', '-'])
            d.append([k + op, value(k, op == '-')])
        opts.append([pick(['T', 'T', 'L']), matcher, d])
    kw = ['D'] + [[k, value(k)] for k in KEYS if pick([False, True, True])]
    if pick([0, 0, 0, 1]):
        kw.append(['y', 5])
    return opts, kw


platforms = st.sets(st.sampled_from(TAGS)).flatmap(
    lambda s: st.sampled_from(['S', 'F']).map(lambda t: [t] + sorted(s)))


def reference(platform, opts, kw):
    """kwargs as they should be, and how often a key was changed."""
    kw, n = dict(kw), {}
    for matcher, changes in opts:
        have = [m for m in matcher if not m.startswith('!')]
        lack = [m[1:] for m in matcher if m.startswith('!')]
        if not all(m in platform for m in have) or any(m in platform for m in lack):
            continue
        for k, v in changes.items():
            name = k.rstrip('+-')
            n[name] = n.get(name, 0) + 1
            if k == name:
                kw[name] = v
                continue
            old = kw.get(name)
            if old is None:
                old = type(v)()
            if k.endswith('+'):
                kw[name] = old | v if isinstance(v, set) else old + v
            elif isinstance(old, str):
                kw[name] = old.replace(v, '')
            else:
                kw[name] = type(old)(x for x in old if x not in v)
    return kw, n


def run_parse(case, env):
    platform, opts, kw = case
    want, n = reference(dec(platform), dec(opts), dec(kw))
    out = env.call('jobs_plat', 'parse', fork=False, platform=platform, options=opts, kwargs=kw)
    if out['kwargs'] != enc(want):
        raise Fail('the values are %r, expected %r' % (out['kwargs'], enc(want)))
    if out['options'] != enc(dec(opts)):
        raise Fail('the options became %r' % out['options'])
    if out['platform'] != enc(dec(platform)):
        raise Fail('the platform became %r' % out['platform'])
    env.nontrivial(max(n.values(), default=0) >= 2)


@st.composite
def sessions(draw):
    sets = [draw(options()) for _ in range(draw(st.integers(1, 2)))]
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        o, kw = draw(st.sampled_from(sets))
        calls.append({'fn': draw(st.sampled_from(['make', 'make', 'passed', 'plain', 'function'])), 'src': draw(st.sampled_from(['a', 'b'])),
                      'options': o, 'kwargs': kw, 'platform': draw(st.one_of(st.none(), platforms))})
    return {'engine': draw(st.sampled_from(['pickle', 'sqlite'])), 'calls': calls,
            'sessions': draw(st.lists(st.lists(st.integers(0, len(calls) - 1), min_size=1, max_size=4), min_size=1, max_size=3))}


def run_sessions(case, env):
    d = env.scratch()
    try:
        done, hits, most = set(), 0, 0
        for s in case['sessions']:
            calls = [case['calls'][i] for i in s]
            out = env.call('jobs_plat', 'session', root=d, engine=case['engine'], calls=calls)
            for c, o in zip(calls, out):
                p = {'posix', 'linux'} if c['platform'] is None else dec(c['platform'])
                want, n = reference(p, dec(c['options']), dec(c['kwargs']))
                if not c['kwargs'] == ['D']:
                    most = max([most] + list(n.values()))
                if o['value'] != enc([c['src'], want]):
                    raise Fail('%s got %r, expected %r' % (c['fn'], o['value'], enc([c['src'], want])))
                if not o['same']:
                    raise Fail('%s changed the arguments it was given' % c['fn'])
                if o['options'] != enc(dec(c['options'])):
                    raise Fail('%s changed the platform options to %r' % (c['fn'], o['options']))
                key = repr(enc([c['fn'], c['src'], dec(c['options']), dec(c['kwargs']), None if c['platform'] is None else set(dec(c['platform']))]))
                ran = 1 if c['fn'] == 'plain' or key not in done else 0
                hits += not ran
                done.add(key)
                if o['ran'] != ran:
                    raise Fail('%s ran %d times, expected %d' % (c['fn'], o['ran'], ran))
        env.nontrivial(hits and most >= 2 and len(case['sessions']) >= 2)
    finally:
        env.clean(d)


@st.composite
def lookups(draw):
    def pick(xs):
        return draw(st.sampled_from(xs))
    tree = {}
    for _ in range(draw(st.integers(0, 8))):
        tree[pick(['', 'p0/', 'p1/', 'p2/', 'p0/sub/']) + pick(['n0', 'n1', 'n2', 'a b'])] = pick(
            ['x', 'x', 'x', 'plain', 'plain', 'dir', 'link', 'plain-link', 'dangling', 'owner'])
    names = [pick(['L', 'T'])] + [pick(['', '', '', './', 'p1/', 'sub/', '@/p2/']) + pick(['n0', 'n1', 'n2', 'a b']) for _ in range(draw(st.integers(1, 3)))]
    paths = [pick(['@/p0', '@/p1', '@/p2', 'p1', 'p0/', 'none', '.', '@/none', '']) for _ in range(draw(st.integers(0, 4)))]
    return {'tree': tree, 'names': names, 'paths': paths, 'env': pick([True, True, False])}


def run_find(case, env):
    d = env.scratch()
    try:
        for n in ('p0/sub', 'p1', 'p2'):
            os.makedirs(os.path.join(d, n))
        for n, what in case['tree'].items():
            f = os.path.join(d, n)
            if what == 'dir':
                os.makedirs(f)
            elif what == 'dangling':
                os.symlink('not there', f)
            else:
                real = f + '.real' if 'link' in what else f
                with open(real, 'w') as fp:
                    fp.write('#!/bin/sh\n')
                os.chmod(real, {'x': 0o755, 'link': 0o755, 'owner': 0o700}.get(what, 0o644))
                if real != f:
                    os.symlink(real, f)
        names = [n.replace('@', d) for n in case['names'][1:]]
        paths = [p.replace('@', d) for p in case['paths']]

        def executable(f):
            f = os.path.join(d, f)
            return os.path.isfile(f) and os.access(f, os.X_OK)

        want, odd = None, False
        for i, n in enumerate(names):
            for j, p in enumerate([''] + paths):
                if want is None and executable(os.path.join(p, n)):
                    want = os.path.join(p, n) if j else n
                    odd |= i > 0 or j > 1
                elif want is None and os.path.lexists(os.path.join(d, p, n)):
                    odd = True
        got = env.call('jobs_plat', 'find', root=d, names=[case['names'][0]] + names,
                       paths=None if case['env'] else paths, path=os.pathsep.join(paths) if case['env'] else None)
        if want is None:
            if got[0] != 'missing' or not all(repr(n) in got[1] for n in names):
                raise Fail('looking for %s gives %s, there is none' % (names, got))
        elif got != ['found', want, True]:
            raise Fail('looking for %s in %s gives %s, expected %s' % (names, paths, got, want))
        env.nontrivial(odd)
    finally:
        env.clean(d)


number = st.sampled_from([0, 1, 2, 3, 9, 10, 11, 100])


@st.composite
def versions(draw):
    out = []
    for _ in range(8):
        v = draw(st.lists(number, min_size=1, max_size=4))
        text = '.'.join(('0' + str(x)) if draw(st.integers(0, 9)) == 0 else str(x) for x in v)
        if draw(st.integers(0, 4)) == 0:
            text += draw(st.sampled_from(['-rc1', '.beta', '+dev', '.x86']))
        reqs = {}
        for k in ('requires_version', 'requires_at_least_version', 'requires_at_most_version'):
            if draw(st.integers(0, 2)) == 0:
                r = list(v)
                if draw(st.booleans()):
                    i = draw(st.integers(0, len(r) - 1))
                    r[i] = draw(number)
                r = r[:draw(st.integers(1, len(r)))] + draw(st.lists(number, max_size=1))
                reqs[k] = r
        out.append([text, reqs])
    return out


def run_versions(case, env):
    d = env.scratch()
    try:
        checked, wants = [], []
        for text, reqs in case:
            v = tuple(int(x) if x.isdigit() else x for x in text.split('.'))
            try:
                ok = all({'requires_version': lambda r: r == v, 'requires_at_least_version': lambda r: r <= v,
                          'requires_at_most_version': lambda r: v <= r}[k](tuple(r)) for k, r in reqs.items())
                # every one of them has to be comparable
                [(tuple(r) < v, v < tuple(r)) for r in reqs.values()]
            except TypeError:
                continue
            checked.append([text, reqs])
            wants.append(ok)
        for (text, reqs), ok, got in zip(checked, wants, env.call('jobs_plat', 'versions', root=d, cases=checked)):
            if ok != (got is None):
                raise Fail('version %s with %s gives %r' % (text, reqs, got))
            if not ok and (text not in got or 'required' not in got):
                raise Fail('version %s with %s gives %r' % (text, reqs, got))
        env.nontrivial(sum(len(r) >= 2 for _, r in checked) >= 2)
    finally:
        env.clean(d)


POSIX = {'posix'}
SYSTEMS = {
    'linux': {'posix', 'linux'}, 'gnu/linux': {'posix', 'linux'}, 'darwin': {'posix', 'bsd', 'darwin', 'macosx'},
    'freebsd': {'posix', 'bsd', 'freebsd'}, 'netbsd': {'posix', 'bsd', 'netbsd'}, 'openbsd': {'posix', 'bsd', 'openbsd'},
    'solaris': {'posix', 'solaris'}, 'sunos': {'posix', 'solaris', 'sunos'}, 'irix64': {'posix', 'irix', 'irix64'},
    'cygwin': {'posix', 'cygwin', 'windows'}, 'mingw': {'posix', 'mingw', 'windows'}, 'windows': {'windows', 'win32'},
    'win64': {'windows', 'win64'},
}
UNAMES = {'Linux': 'linux', 'GNU/Linux': 'gnu/linux', 'Darwin': 'darwin', 'FreeBSD': 'freebsd', 'SunOS': 'sunos', 'IRIX64': 'irix64',
          'CYGWIN_NT-10.0': 'cygwin', 'MINGW32_NT-6.1': 'mingw', 'Plan9': None, 'Windows': 'windows'}


def names(p):
    win, mingw, cyg, mac = ('windows' in p), ('mingw' in p), ('cygwin' in p), ('darwin' in p)
    return {
        'obj_suffix': '.obj' if win else '.o',
        'static_obj_suffix': '_static.obj' if win else '.o',
        'static_lib_prefix': '' if win and not mingw else 'lib',
        'static_lib_suffix': '.lib' if win and not mingw else '.a',
        'shared_obj_suffix': '_shared.obj' if win else '.os',
        'shared_lib_prefix': '' if win or mingw or cyg else 'lib',
        'shared_lib_suffix': '.dll' if win or mingw or cyg else '.dylib' if mac else '.so',
        'exe_suffix': '.exe' if win else '',
        'runtime_env_libpath': 'PATH' if win and not cyg else 'DYLD_LIBRARY_PATH' if mac else 'LD_LIBRARY_PATH'}


systems = st.one_of(
    st.tuples(st.just('uname'), st.sampled_from(sorted(UNAMES)), st.sampled_from(['\n', '', ' \n'])),
    st.tuples(st.just('arch'), st.sampled_from(sorted(SYSTEMS) + ['beos', 'LINUX', ''])),
    st.tuples(st.just('broken'))).map(list)


def run_guess(case, env):
    d = env.scratch()
    try:
        os.makedirs(d + '/bin')
        if case[0] != 'arch':
            with open(d + '/bin/uname', 'w') as f:
                f.write("#!/bin/sh\n[ \"$1\" = -s ] || exit 1\nprintf '%s'\n" % (case[1] + case[2]).replace('\n', '\\n')
                        if case[0] == 'uname' else '#!/bin/sh\nexit 3\n')
            os.chmod(d + '/bin/uname', 0o755)
        s = {'uname': lambda: UNAMES[case[1]], 'arch': lambda: case[1], 'broken': lambda: 'linux'}[case[0]]()
        want = SYSTEMS.get(s)
        got = env.call('jobs_plat', 'guess', root=d, uname=None, arch=case[1] if case[0] == 'arch' else None)
        if want is None:
            if got[0] != 'unknown':
                raise Fail('%s is taken for %s' % (case, got))
            return
        if got[:2] != ['platform', sorted(want)]:
            raise Fail('%s is taken for %s, expected %s' % (case, got, sorted(want)))
        for n in got[2:]:
            if n is not None and n != names(want):
                raise Fail('names on %s are %s, expected %s' % (case, n, names(want)))
        env.nontrivial()
    finally:
        env.clean(d)


PARTS = [Part('options', lambda tier: st.tuples(platforms, options()).map(lambda a: [a[0], *a[1]]), run_parse, 4000, 100000),
         Part('builders', lambda tier: sessions(), run_sessions, 500, 15000),
         Part('find', lambda tier: lookups(), run_find, 800, 20000),
         Part('versions', lambda tier: versions(), run_versions, 400, 8000),
         Part('systems', lambda tier: systems, run_guess, 80, 400)]
