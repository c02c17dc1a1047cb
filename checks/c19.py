"""C19: text and file builders produce what their inputs say."""
import os
import re
import stat

from hypothesis import strategies as st

from pbt.core import Fail, Part, known_findings

ID = 'C19'
LEVEL = 'exploration'
TECHNIQUE = ('stateful property-based testing: generated templates, values and source trees, edited over several processes, '
             'against a reference model of every builder and of when it has to run')
NOTE = 'Random search with shrinking.'
RULE = ('A case is a set of builder calls and a history of sessions and edits; non-trivial: two or more sessions with an edit in '
        'between, a call that ran again and one that was left alone.')
ASSUMPTIONS = ['templates are text in the encoding of the locale, with line ends of the system',
               'every output file belongs to one call of the project, the values of which may change',
               'the number 0 as value of a #define is not used; values are compared with ==',
               'the paths of outputs do not begin with the name of the build root followed by other characters']
BACK = 'values-changed-back'
KNOWN = {k.get('id') for k in known_findings(ID)}
WORDS = ['A', 'B', 'ab', 'x_1', 'é']


def enc(v):
    for t, n in ((list, 'L'), (tuple, 'T')):
        if isinstance(v, t):
            return [n] + [enc(x) for x in v]
    if isinstance(v, dict):
        return ['D'] + [[enc(k), enc(x)] for k, x in v.items()]
    return v


def dec(v):
    if not isinstance(v, list):
        return v
    if v[0] == 'D':
        return {dec(k): dec(x) for k, x in v[1:]}
    return {'L': list, 'T': tuple}[v[0]](dec(x) for x in v[1:])


# ---------------------------------------------------------------- templates

PIECES = ['@A@', '@B@', '@ab@', '@x_1@', '@é@', '@', '@@', 'A', 'B', 'ab', ' ', '\n', '\n', '\n#undef A\n', '\n#undef  B\n', '#undef ab',
          '#undef x_1\n', '\n #undef A\n', '#undef', '\\', '\\1', '%A', '$A', 'é', '#define A 1', '@no@', '\n#undef no\n']
FORMAT = ['{A}', '{B}', '{ab}', '{x_1}', '{{', '}}', '{A!s:>6}', '{B!r}', '{ab!s:*^9}', '{no}', 'x', '\n', ' ', '@A@', 'é', '\\']


def render_format(template, values):
    """Independent of str.format, for the pieces above."""
    out, i = '', 0
    while i < len(template):
        for p in sorted(FORMAT, key=len, reverse=True):
            if template.startswith(p, i):
                break
        else:
            raise AssertionError(template)
        i += len(p)
        if p in ('{{', '}}'):
            out += p[0]
        elif p[0] == '{':
            name = re.match(r'\{(\w+)', p).group(1)
            v = values[name]
            if p == '{A!s:>6}':
                out += str(v).rjust(6)
            elif p == '{B!r}':
                out += repr(v)
            elif p == '{ab!s:*^9}':
                s = str(v)
                left = max(0, 9 - len(s)) // 2
                out += '*' * left + s + '*' * (max(0, 9 - len(s)) - left)
            else:
                out += str(v)
        else:
            out += p
    return out


def word(c):
    return c == '_' or c.isalnum()


class Unknown(Exception):
    pass


def text_of(v):
    return v if isinstance(v, str) else ' '.join(str(x) for x in v) if isinstance(v, (list, tuple)) else str(v)


def at_words(s, values):
    out, i = '', 0
    while i < len(s):
        j = i + 1
        while j < len(s) and word(s[j]):
            j += 1
        if s[i] == '@' and j > i + 1 and j < len(s) and s[j] == '@':
            if s[i + 1:j] not in values:
                raise Unknown(s[i + 1:j])
            out += text_of(values[s[i + 1:j]])
            i = j + 1
        else:
            out += s[i]
            i += 1
    return out


def header(s, values):
    missing, out, rest = [], [], ''
    lines = s.split('\n')
    for n, line in enumerate(lines):
        m = line.split(' ')
        key = m[-1]
        if m[0] == '#undef' and len(m) >= 2 and not any(m[1:-1]) and key and all(map(word, key)):
            if key not in values:
                missing.append(key)
                continue
            v = values[key]
            v = ('1' if v else '') if isinstance(v, bool) else '' if v is None else text_of(v)
            lines[n] = '#define %s %s' % (key, v) if v else '/* #undef %s */' % key
        else:
            lines[n] = at_words(line, values)
    if missing:
        raise Unknown(' '.join(missing))
    return '\n'.join(lines)


def model(step, template):
    v = dec(step['patterns'])
    if step['fn'] == 'substitute':
        for k, x in v.items():
            out, i = '', 0
            while i < len(template):
                if template.startswith(k, i):
                    out, i = out + x, i + len(k)
                else:
                    out, i = out + template[i], i + 1
            template = out
        return template
    if step['fn'] == 'regex_substitute':
        for item in v:
            template = re.compile(item[0], item[2] if len(item) == 3 else re.M).sub(item[1], template)
        return template
    if step['fn'] == 'format_substitute':
        try:
            return render_format(template, v)
        except KeyError as e:
            raise Unknown(str(e))
    return (at_words if step['fn'] == 'autoconf_config_file' else header)(template, v)


values = st.sampled_from(['', 'v', 'two words', '@A@', '{B}', '\\1', 'é', 'a\nb', 7, 12, -3, 2.5, True, False, None,
                          ['L'], ['L', 'p', 'q'], ['T', 'p', 2], ['L', '']])


@st.composite
def patterns(draw, fn):
    if fn == 'substitute':
        # always in the same order, as dictionaries in different orders are equal
        ks = sorted(draw(st.sets(st.sampled_from(['@A@', 'A', 'B', 'ab', '@', '\n', '#undef', 'é', '\\1', 'v']), max_size=4)),
                    key=lambda k: ((len(k) * 7 + ord(k[0])) % 5, k))
        return ['D'] + [[k, draw(st.sampled_from(['', 'A', 'B', 'v', '\\1', 'x\ny', 'é']))] for k in ks]
    if fn == 'regex_substitute':
        out = ['L']
        for _ in range(draw(st.integers(0, 3))):
            p = draw(st.sampled_from([['^#undef', 'U'], ['(A)(B)?', r'<\1>'], ['@(\\w+)@', r'{\1}'], [' +$', ''], ['[ab]+', '\\g<0>\\g<0>'],
                                      ['\n', '\\n\\n'], ['^', '> '], ['é', 'e']]))
            flags = draw(st.sampled_from([None, None, int(re.M | re.I), 0]))
            out.append([draw(st.sampled_from(['T', 'L']))] + p + ([] if flags is None else [flags]))
        return out
    ks = [k for k in WORDS if draw(st.integers(0, 5)) > 0]
    return ['D'] + [[k, draw(values)] for k in ks]


def template(fn):
    return st.lists(st.sampled_from(FORMAT if fn == 'format_substitute' else PIECES), max_size=8).map(''.join)


@st.composite
def projects(draw):
    def pick(xs):
        return draw(st.sampled_from(xs))
    n = draw(st.integers(1, 5))
    steps = []
    for i in range(n):
        fn = pick(['substitute', 'regex_substitute', 'format_substitute', 'autoconf_config_file', 'autoconf_config_header'])
        form = pick(['o%d', 'd/e/o%d', 'build/o%d', '/else/o%d', 'o %d.h'])
        steps.append({'fn': fn, 'src': 's%d' % i if draw(st.booleans()) else 'in/s %d' % i, 'dst': form % i,
                      'patterns': draw(patterns(fn)), 'buildroot': pick([None, None, None, 'other']), 'path': draw(st.booleans())})
        if form == 'build/o%d':
            steps[-1]['buildroot'] = None
        steps[-1]['template'] = draw(template(fn))
    sessions = []
    for _ in range(draw(st.integers(0, 3))):
        edits = []
        for _ in range(draw(st.integers(0, 3))):
            i = draw(st.integers(0, n - 1))
            kind = pick(['template', 'patterns', 'patterns', 'back', 'rm', 'touch', 'rewrite', 'gone'])
            e = [kind, i]
            if kind == 'template':
                e.append(draw(template(steps[i]['fn'])))
            elif kind == 'patterns':
                e.append(draw(patterns(steps[i]['fn'])))
            edits.append(e)
        sessions.append(edits)
    return {'engine': pick(['pickle', 'sqlite']), 'steps': steps, 'sessions': [[]] + sessions}


def rooted(dst, root):
    return dst if dst.startswith(root) else os.path.join(root, os.path.basename(dst) if dst.startswith('/') else dst)


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.lexists(path):
        os.remove(path)
    with open(path, 'wb') as f:
        f.write(data)


def stamp(path):
    try:
        s = os.stat(path)
    except OSError:
        return None
    return [s.st_mtime_ns, s.st_ino]


def read(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except OSError:
        return None


def run_text(case, env):
    d = env.scratch()
    try:
        steps = [dict(s) for s in case['steps']]
        first = [s['patterns'] for s in steps]
        for s in steps:
            write(os.path.join(d, s['src']), s['template'].encode())
        recorded = {}   # (step, patterns) -> template
        owner = {}      # step -> patterns that wrote the output
        again = left = False
        for n, edits in enumerate(case['sessions']):
            for e in edits:
                s = steps[e[1]]
                src, dst = os.path.join(d, s['src']), os.path.join(d, rooted(s['dst'], s['buildroot'] or 'build'))
                if e[0] == 'template':
                    s['template'] = e[2]
                elif e[0] == 'gone':
                    s['template'] = None
                    if os.path.exists(src):
                        os.remove(src)
                elif e[0] in ('patterns', 'back'):
                    s['patterns'] = e[2] if e[0] == 'patterns' else first[e[1]]
                elif e[0] == 'rm' and os.path.exists(dst):
                    os.remove(dst)
                elif e[0] == 'touch' and s['template'] is not None:
                    os.utime(src)
                if e[0] in ('template', 'rewrite') and s['template'] is not None:
                    write(src, s['template'].encode())
            before = [(stamp(p), read(p)) for p in (os.path.join(d, rooted(s['dst'], s['buildroot'] or 'build')) for s in steps)]
            out = env.call('jobs_text', 'text', root=d, engine=case['engine'],
                           steps=[{k: v for k, v in s.items() if k != 'template'} for s in steps])
            for i, (s, o, (stamped, old)) in enumerate(zip(steps, out, before)):
                where = 'session %d, call %d (%s)' % (n, i, s['fn'])
                dst = rooted(s['dst'], s['buildroot'] or 'build')
                path = os.path.join(d, dst)
                now = read(path)
                key = (i, repr(dec(s['patterns'])))
                try:
                    if s['template'] is None:
                        raise FileNotFoundError
                    want = model(s, s['template'])
                except (Unknown, FileNotFoundError) as e:
                    if o[0] != 'error':
                        raise Fail('%s: %s, expected an error: %r' % (where, o, e))
                    if isinstance(e, Unknown) and s['fn'] == 'autoconf_config_header' and o[1] == 'Error' and str(e) not in o[2]:
                        raise Fail('%s: the error is %s, expected %r' % (where, o, e))
                    if (stamp(path), now) != (stamped, old):
                        raise Fail('%s failed but wrote %r' % (where, now))
                    # it may run again then
                    recorded.pop(key, None)
                    continue
                if o != ['ok', dst, True]:
                    raise Fail('%s: returned %r, expected %s' % (where, o, dst))
                valid = stamped is not None and any(
                    k[0] == i and t == s['template'] and dec_eq(p, s['patterns']) for k, (t, p) in recorded.items())
                if valid and owner[i] != key[1] and BACK in KNOWN and (stamp(path), now) == (stamped, old):
                    env.label(BACK)
                    continue
                if now != want.encode():
                    raise Fail('%s: wrote %r, expected %r' % (where, now, want))
                if valid and owner[i] == key[1]:
                    left = True
                    if stamp(path) != stamped:
                        raise Fail('%s: the output was written again' % where)
                else:
                    again |= n > 0
                recorded[key] = (s['template'], s['patterns'])
                owner[i] = key[1]
        env.nontrivial(again and left)
    finally:
        env.clean(d)


def dec_eq(a, b):
    return dec(a) == dec(b)


# ---------------------------------------------------------------- files

NAMES = ['a.c', 'b.c', 'c.h', 'sub/a.c', 'sub/d.h', 'sub/sub/e.c', 'x y.c', 'sub/.f', 'keep.bak', 'sub/c.bak']
CONTENTS = ['', 'x', 'y\n', '\x00\xff\r\n', 'longer ' * 20]


@st.composite
def copies(draw):
    def pick(xs):
        return draw(st.sampled_from(xs))

    def name(i):
        return pick(['src/', 'src/', 'm%d/' % i]) + pick(NAMES)

    tree = {'src/' + k: [pick(CONTENTS), pick([0o644, 0o644, 0o755, 0o444])] for k in draw(st.lists(st.sampled_from(NAMES), unique=True))}
    steps = []
    for i in range(draw(st.integers(1, 4))):
        fn = pick(['copy', 'copy', 'regex', 'regex', 'move'])
        s = {'fn': fn, 'path': draw(st.booleans())}
        if fn == 'regex':
            s.update(srcdir=pick(['src', 'src', 'src/', './src', 'src/sub', '@/src']), dst=pick(['o%d', 'o%d/', 'build/o%d', 'o%d/p']) % i)
            s['pattern'], s['to'] = pick([[r'(.*\.c)', r'x-\1'], [r'(.*)\.c$', r'\1.o'], [r'^(.*)$', r'\1'], [r'\.[hc]$', r'\g<0>2'],
                                          ['^sub/', 'bus/'], ['nothing', ''], [r'^([^/]*)$', r'\1']])
            s['more'] = {}
            if pick([0, 0, 1]):
                s['more']['exclude_pattern'] = pick([r'\.bak$', r'/sub/', r'\.h'])
            if draw(st.booleans()):
                s['more']['include_dirs'] = draw(st.booleans())
        else:
            s['src'] = 'm%d/f%d' % (i, i) if fn == 'move' else 'src/' + pick(NAMES)
            s['dst'] = pick(['o%d', 'o%d/', 'o%d/p/q', 'build/o%d', 'build/o%d/', '/else/o%d', 'pre%d', 'pre%d/', 'build/pre%d']) % i
            tree.setdefault(s['src'], [pick(CONTENTS), pick([0o644, 0o755, 0o444])])
        steps.append(s)
    known = sorted(tree)
    sessions = []
    for _ in range(draw(st.integers(0, 3))):
        edits = []
        for _ in range(draw(st.integers(0, 3))):
            kind = pick(['write', 'write', 'write', 'touch', 'rewrite', 'rm', 'rm-out', 'rm-out', 'chmod'])
            f = pick(known + ['src/' + x for x in NAMES])
            if kind == 'rm-out':
                edits.append([kind, draw(st.integers(0, len(steps) - 1)), pick([0, 1, 2])])
            else:
                edits.append([kind, f, pick(CONTENTS), pick([0o644, 0o755, 0o444])])
        sessions.append(edits)
    return {'engine': pick(['pickle', 'sqlite']), 'tree': tree, 'steps': steps, 'sessions': [[]] + sessions}


def put(d, f, data, mode):
    f = os.path.join(d, f)
    write(f, data.encode('latin-1'))
    os.chmod(f, mode)
    own(d, f)


def own(d, f):
    while len(f) >= len(d):
        os.chown(f, 65534, 65534, follow_symlinks=False)
        f = os.path.dirname(f)


def matches(d, s, tree):
    """{source: destination} of a copy_regex and its directories."""
    srcdir = os.path.relpath(os.path.join(d, s['srcdir'].replace('@', d)), d)
    out, dirs = {}, {}
    names = {f for f in tree if f.startswith(srcdir + '/')}
    parents = {f[:i] for f in names for i in range(len(srcdir) + 1, len(f)) if f[i] == '/'}
    for f in sorted(names | parents):
        full = os.path.join(s['srcdir'].replace('@', d), os.path.relpath(f, srcdir))
        if 'exclude_pattern' in s['more'] and re.search(s['more']['exclude_pattern'], full):
            continue
        new, n = re.subn(s['pattern'], s['to'], os.path.relpath(f, srcdir))
        if n:
            (out if f in names else dirs)[f] = os.path.join(rooted(s['dst'], 'build'), new)
    return out, dirs


def conflict(out):
    """Two files for one place, or a file where a directory is needed."""
    vs = list(out.values())
    return len(set(vs)) < len(vs) or any(a.startswith(b + '/') for a in vs for b in vs)


def run_files(case, env):
    d = env.scratch()
    try:
        own(d, d)
        os.makedirs(d + '/src/sub')
        own(d, d + '/src/sub')
        tree = {}
        for f, (data, mode) in case['tree'].items():
            put(d, f, data, mode)
            tree[f] = data
        for i, s in enumerate(case['steps']):
            if 'pre' in s['dst']:
                os.makedirs(d + '/build/pre%d' % i)
                own(d, d + '/build/pre%d' % i)
        steps = [{k: v.replace('@', d) if isinstance(v, str) else v for k, v in s.items()} for s in case['steps']]
        recorded, again, left, moved = {}, False, False, {}
        for n, edits in enumerate(case['sessions']):
            for e in edits:
                if e[0] == 'rm-out':
                    outs = sorted(recorded.get(e[1], {}).get('files', {}).values())
                    if outs:
                        p = os.path.join(d, outs[e[2] % len(outs)])
                        if os.path.isfile(p):
                            os.remove(p)
                    continue
                f = e[1]
                # no file where a directory is, and none below a file
                if any(g != f and (g.startswith(f + '/') or f.startswith(g + '/')) for g in tree):
                    continue
                if e[0] == 'write':
                    put(d, f, e[2], e[3])
                    tree[f] = e[2]
                elif f in tree:
                    p = os.path.join(d, f)
                    if e[0] == 'touch':
                        os.utime(p)
                    elif e[0] == 'rewrite':
                        put(d, f, tree[f], e[3])
                    elif e[0] == 'chmod':
                        os.chmod(p, e[3])
                    else:
                        os.remove(p)
                        del tree[f]
            before = {}
            for top, _, fs in os.walk(d + '/build'):
                for f in fs:
                    p = os.path.join(top, f)
                    before[os.path.relpath(p, d)] = stamp(p)
            if any(s['fn'] == 'regex' and conflict({**matches(d, s, tree)[0], **matches(d, s, tree)[1]}) for s in case['steps']):
                return
            # where a directory is before the session
            isdir = [os.path.isdir(os.path.join(d, rooted(s['dst'], 'build'))) for s in steps]
            modes = {f: stat.S_IMODE(os.stat(os.path.join(d, f)).st_mode) for f in tree}
            out = env.call('jobs_text', 'files', root=d, engine=case['engine'], steps=steps)
            for i, (s, raw, o) in enumerate(zip(steps, case['steps'], out)):
                where = 'session %d, call %d (%s)' % (n, i, s['fn'])
                r = recorded.setdefault(i, {'files': {}, 'data': {}})
                if s['fn'] == 'regex':
                    files, dirs = matches(d, raw, tree)
                    if o != ['ok', sorted(files.values()), True]:
                        raise Fail('%s: returned %r, expected %r' % (where, o, sorted(files.values())))
                    if raw['more'].get('include_dirs', True):
                        for p in dirs.values():
                            if not os.path.isdir(os.path.join(d, p)):
                                raise Fail('%s: there is no directory %s' % (where, p))
                else:
                    dst = rooted(s['dst'], 'build')
                    if isdir[i] or dst.endswith('/'):
                        dst = os.path.join(dst, os.path.basename(s['src']))
                    files = {s['src']: dst}
                    gone = s['src'] not in tree
                    if gone and not (s['fn'] == 'move' and dst in before):
                        if o[0] != 'error':
                            raise Fail('%s: returned %r, there is no source' % (where, o))
                        continue
                    if o != ['ok', dst, True]:
                        raise Fail('%s: returned %r, expected %r' % (where, o, dst))
                    if s['fn'] == 'move':
                        if not gone:
                            moved[i] = (tree.pop(s['src']), modes[s['src']])
                            again |= n > 0
                        else:
                            left = True
                        if os.path.lexists(os.path.join(d, s['src'])):
                            raise Fail('%s: the source is still there' % where)
                        if read(os.path.join(d, dst)) != moved[i][0].encode('latin-1'):
                            raise Fail('%s: %s has other content than the file moved' % (where, dst))
                        r['files'] = files
                        continue
                for f, p in files.items():
                    path = os.path.join(d, p)
                    if read(path) != tree[f].encode('latin-1'):
                        raise Fail('%s: %s has other content than %s' % (where, p, f))
                    if r['data'].get((f, p)) == tree[f] and p in before:
                        left = True
                        if s['fn'] == 'copy' and stamp(path) != before[p]:
                            raise Fail('%s: %s was copied again' % (where, p))
                    else:
                        again |= n > 0
                        if stat.S_IMODE(os.stat(path).st_mode) != modes[f]:
                            raise Fail('%s: %s has other permissions than %s' % (where, p, f))
                if s['fn'] == 'regex' and all(r['data'].get((f, p)) == tree[f] and p in before for f, p in files.items()):
                    for p in files.values():
                        if stamp(os.path.join(d, p)) != before[p]:
                            raise Fail('%s: %s was copied again' % (where, p))
                r['files'] = files
                for f, p in files.items():
                    r['data'][f, p] = tree[f]
            for f in tree:
                if read(os.path.join(d, f)) != tree[f].encode('latin-1'):
                    raise Fail('session %d: the source %s was changed' % (n, f))
        env.nontrivial(again and left)
    finally:
        env.clean(d)


def setup(env):
    d = env.base
    while d not in ('/', '/tmp', '/dev/shm'):
        os.chmod(d, 0o711)
        d = os.path.dirname(d)


PARTS = [Part('text', lambda tier: projects(), run_text, 1200, 30000),
         Part('files', lambda tier: copies(), run_files, 1000, 25000, setup=setup)]
