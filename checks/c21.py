"""C21: C and C++ projects build correctly and incrementally."""
import hashlib
import os
import shutil

from hypothesis import strategies as st

from pbt.core import Fail, Part

ID = 'C21'
LEVEL = 'exploration'
TECHNIQUE = ('stateful property-based testing: generated C and C++ projects, edited over several processes, against a model of '
             'what the programs print and which commands have to run')
NOTE = 'Random search with shrinking.'
RULE = ('A case is a project and a history of edits and builds; non-trivial: a build after the first one compiled some but not '
        'all objects, or linked without compiling everything.')
ASSUMPTIONS = ['headers have different names, so that no new file hides another one',
               'every object, library and program is written by one call; arguments are not changed back to earlier ones '
               '(see the known finding of C19)',
               'libraries linked together have different names beginning with lib, and name the libraries they need']
INCS = ['inc', 'in c', 'src']
VARIANTS = [{}, {'macros': ['BM=50000'], 'flags': ['-DBF=60000'], 'includes': ['inc']}]
ENGINES = {'gcc': 'pickle', 'g++': 'sqlite'}
EXT = {'gcc': '.c', 'g++': '.cc'}
WRAPPER = '''#!/bin/sh
l=$(printf '%%s\\037' %s "$@")
printf '%%s\\n' "$l" >> "$CCLOG"
exec /usr/bin/%s "$@"
'''


@st.composite
def projects(draw):
    def pick(xs):
        return draw(st.sampled_from(xs))

    def some(xs, most):
        return sorted(draw(st.sets(st.sampled_from(xs), max_size=most))) if xs else []

    comp = pick(['gcc', 'gcc', 'g++'])
    nh = draw(st.integers(0, 4))
    headers = [{'path': pick(['inc/', 'inc/', 'in c/', 'src/']) + pick(['h%d.h', 'h%d.h', 'h %d.h', 'h#%d.h', 'h$%d.h']) % i,
                'incs': some(list(range(i)), 2), 'val': draw(st.integers(1, 99))} for i in range(nh)]
    srcs, targets = {}, []
    nlib = draw(st.integers(0, 3))
    nexe = draw(st.integers(1, 2))
    for t in range(nlib + nexe):
        lib = t < nlib
        kind = pick(['static', 'shared'])
        libs = [i for i in range(min(t, nlib)) if (not lib or targets[i]['kind'] == kind) and draw(st.integers(0, 2 if lib else 1)) > 0]
        mine = []
        for k in range(draw(st.integers(1, 3))):
            sid = '%d_%d' % (t, k)
            srcs[sid] = {'path': pick(['src/', 'src/', 'src/sub/', 'src/s p/']) + pick(['s%s', 's%s', 's.%s', 's %s', 's[%s]', 's{%s,x}']) % sid + EXT[comp],
                         'val': draw(st.integers(1, 99)), 'incs': some(list(range(nh)), 2),
                         'calls': [] if not lib else some(['%d_0' % i for i in libs], 2), 'refs': None}
            mine.append(sid)
        if not lib:
            srcs[mine[0]]['refs'] = mine[1:] + [s for i in libs for s in targets[i]['srcs']]
        targets.append({
            'name': t, 'lib': lib, 'kind': kind, 'libs': libs if draw(st.booleans()) else libs[::-1], 'srcs': mine,
            'dst': pick(['', '', 'd%d/' % t]) + pick(['t%d', 't%d', 't %d'] if pick([0, 0, 1]) else ['t%d']) % t, 'how': pick(['build', 'build', 'steps']),
            'variant': pick([0, 0, 0, 1]), 'macros': some(['M0=1000', 'M1=2000'], 2), 'warnings': some(['all', 'no-unused'], 2),
            'cflags': [], 'lflags': pick([[], [], ['-Wl,-O1', '-Wl,--no-undefined-version']]) if not lib else [],
            'external': pick([[], [], ['m']])})
        for i in some(list(range(nh)), 2):
            targets[-1]['cflags'] += ['-include', headers[i]['path']]
        if pick([0, 0, 1]):
            targets[-1]['cflags'].append('-DCF=%d' % draw(st.integers(1, 9)))
    sids = sorted(srcs)
    sessions = []
    for _ in range(draw(st.integers(1, 4))):
        edits = []
        for _ in range(draw(st.integers(0, 3))):
            kind = pick(['hval', 'hval', 'sval', 'sval', 'comment', 'touch', 'rewrite', 'incs', 'macros', 'rm', 'rm', 'drop', 'error', 'rmh', 'wide'])
            e = [kind]
            if kind in ('hval', 'rmh'):
                if not nh:
                    continue
                e.append(draw(st.integers(0, nh - 1)))
            elif kind in ('comment', 'touch', 'rewrite'):
                e.append(pick(sids + list(range(nh))))
            elif kind in ('sval', 'error'):
                e.append(pick(sids))
            elif kind == 'incs':
                e += [pick(sids), some(list(range(nh)), 2)]
            elif kind == 'macros':
                e.append(draw(st.integers(0, nlib + nexe - 1)))
            elif kind == 'rm':
                e += [draw(st.integers(0, nlib + nexe - 1)), draw(st.integers(0, 3))]
            elif kind == 'drop':
                e += [draw(st.integers(0, nlib + nexe - 1)), draw(st.booleans())]
            elif kind == 'wide':
                # a new source at the end
                e += [draw(st.integers(0, nlib + nexe - 1))]
            edits.append(e)
        sessions.append(edits)
    return {'comp': comp, 'jobs': pick([1, 4]), 'headers': headers, 'srcs': srcs, 'targets': targets, 'sessions': [[]] + sessions}


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def digest(path):
    try:
        with open(path, 'rb') as f:
            return hashlib.md5(f.read()).hexdigest()
    except OSError:
        return None


class Project:
    def __init__(self, case, root):
        self.root, self.comp = root, case['comp']
        self.headers = [dict(h, comment=0, gone=False) for h in case['headers']]
        self.srcs = {k: dict(s, comment=0, bad=False) for k, s in case['srcs'].items()}
        self.targets = [dict(t, srcs=list(t['srcs'])) for t in case['targets']]
        self.fresh = 100
        self.n = 0

    def number(self):
        self.fresh += 1
        return self.fresh

    # the texts

    def header_text(self, i):
        h = self.headers[i]
        return '#ifndef G%d\n#define G%d\n%s__attribute__((unused)) static long h%d(void) { return %d%s; }\n/* %d */\n#endif\n' % (
            i, i, ''.join('#include "%s"\n' % os.path.basename(self.headers[j]['path']) for j in h['incs']), i, h['val'],
            ''.join(' + h%d()' % j for j in h['incs']), h['comment'])

    def source_text(self, k):
        s = self.srcs[k]
        t = ''.join('#include "%s"\n' % os.path.basename(self.headers[j]['path']) for j in s['incs'])
        for n, m in enumerate(('M0', 'M1', 'M2', 'BM', 'BF', 'CF')):
            t += '#ifndef %s\n#define %s 0\n#endif\n' % (m, m)
        for c in s['calls'] + (s['refs'] or []):
            t += 'long f%s(void);\n' % c
        t += 'long f%s(void) { return %d + M0 + M1 + M2 + BM + BF + CF%s%s; }\n/* %d */\n' % (
            k, s['val'], ''.join(' + h%d()' % j for j in s['incs']), ''.join(' + f%s()' % c for c in s['calls']), s['comment'])
        if s['refs'] is not None:
            t = '#include <stdio.h>\n' + t + 'int main(void) {\n%s return 0; }\n' % ''.join(
                ' printf("%%s %%ld\\n", "%s", f%s());\n' % (r, r) for r in [k] + s['refs'])
        return t + ('#error no\n' if s['bad'] else '')

    def put(self, what):
        if isinstance(what, int):
            if not self.headers[what]['gone']:
                write(os.path.join(self.root, self.headers[what]['path']), self.header_text(what))
        else:
            write(os.path.join(self.root, self.srcs[what]['path']), self.source_text(what))

    # what they mean

    def closure(self, incs):
        out = []
        for i in incs:
            if i not in out:
                out.append(i)
                if not self.headers[i]['gone']:
                    out += [j for j in self.closure(self.headers[i]['incs']) if j not in out]
        return out

    def used(self, t, k):
        """Headers of an object."""
        pre = [i for i, h in enumerate(self.headers) if h['path'] in t['cflags']]
        return self.closure(pre + self.srcs[k]['incs'])

    def texts(self, t, k):
        return (self.source_text(k), tuple(sorted((i, self.header_text(i)) for i in self.used(t, k))))

    def compiles(self, t, k):
        return not self.srcs[k]['bad'] and not any(self.headers[i]['gone'] for i in self.used(t, k))

    def h(self, i):
        return self.headers[i]['val'] + sum(self.h(j) for j in self.headers[i]['incs'])

    def where(self, k):
        return next((t for t in self.targets if k in t['srcs']), None)

    def value(self, k):
        s, t = self.srcs[k], self.where(k)
        n = s['val'] + sum(self.h(i) for i in s['incs']) + sum(self.value(c) for c in s['calls'])
        for m in t['macros']:
            n += int(m.split('=')[1])
        for f in t['cflags']:
            if f.startswith('-DCF='):
                n += int(f[5:])
        return n + (110000 if t['variant'] else 0)

    def suffix(self, t):
        return '.o' if t['kind'] == 'static' else '.os'

    def obj(self, t, k):
        return 'build/obj/' + t['dst'] + '/' + os.path.splitext(self.srcs[k]['path'])[0] + self.suffix(t)

    def output(self, t):
        d, n = os.path.split(t['dst'])
        if t['lib']:
            n = 'lib' + n + ('.a' if t['kind'] == 'static' else '.so')
        return os.path.join('build', d, n)

    def all_libs(self, t):
        out = []
        for i in t['libs']:
            out += [j for j in self.all_libs(self.targets[i]) + [i] if j not in out]
        return out

    def calls(self, t):
        """What identifies the call that writes each output."""
        common = repr([t['variant'], t['kind'], t['macros'], t['warnings'], t['cflags'], sorted(t['includes'])])
        out = {self.obj(t, k): common for k in t['srcs']}
        out[self.output(t)] = repr([t['variant'], t['kind'], t['srcs'], t['libs'], t['lflags'], t['external']])
        return out


def edit(p, e):
    """Applies an edit; False if it has nothing to change."""
    kind = e[0]
    if kind == 'hval':
        p.headers[e[1]].update(val=p.number(), gone=False)
        p.put(e[1])
    elif kind == 'rmh':
        if p.headers[e[1]]['gone']:
            return
        p.headers[e[1]]['gone'] = True
        os.remove(os.path.join(p.root, p.headers[e[1]]['path']))
    elif kind in ('comment', 'touch', 'rewrite'):
        x = p.headers[e[1]] if isinstance(e[1], int) else p.srcs[e[1]]
        if x.get('gone'):
            return
        if kind == 'comment':
            x['comment'] = p.number()
        if kind == 'touch':
            os.utime(os.path.join(p.root, x['path']))
        else:
            p.put(e[1])
    elif kind == 'sval':
        p.srcs[e[1]].update(val=p.number(), bad=False)
        p.put(e[1])
    elif kind == 'error':
        p.srcs[e[1]].update(comment=p.number(), bad=True)
        p.put(e[1])
    elif kind == 'incs':
        p.srcs[e[1]].update(incs=e[2], comment=p.number())
        p.put(e[1])
    elif kind == 'macros':
        t = p.targets[e[1]]
        t['macros'] = [m for m in t['macros'] if not m.startswith('M2')] + ['M2=%d' % (p.number() * 1000)]
    elif kind == 'rm':
        t = p.targets[e[1]]
        outs = [p.output(t), p.output(t)] + [p.obj(t, k) for k in t['srcs']]
        f = os.path.join(p.root, outs[e[2] % len(outs)])
        if os.path.exists(f):
            os.remove(f)
    elif kind == 'drop':
        t = p.targets[e[1]]
        if len(t['srcs']) < 2:
            return
        k = t['srcs'].pop()
        if e[2]:
            for n, s in p.srcs.items():
                if s['refs'] and k in s['refs']:
                    s['refs'] = [r for r in s['refs'] if r != k]
                    p.put(n)
    elif kind == 'wide':
        t = p.targets[e[1]]
        k = '%d_%d' % (e[1], p.number())
        p.srcs[k] = {'path': 'src/n%s%s' % (k, EXT[p.comp]), 'val': p.number(), 'incs': list(range(len(p.headers)))[:1], 'calls': [],
                     'refs': None, 'comment': 0, 'bad': False}
        t['srcs'].append(k)
        p.put(k)
        for u in p.targets:
            if not u['lib'] and (u is t or e[1] in u['libs']):
                p.srcs[u['srcs'][0]]['refs'].append(k)
                p.put(u['srcs'][0])


def contains(cmd, part):
    return any(cmd[i:i + len(part)] == part for i in range(len(cmd) - len(part) + 1))


def run(case, env):
    d = env.scratch()
    try:
        shutil.copytree(env.base + '/cc-' + case['comp'], d, dirs_exist_ok=True, symlinks=True)
        p = Project(case, d)
        for i in range(len(p.headers)):
            p.put(i)
        for k in p.srcs:
            p.put(k)
        compiled, linked, maybe, owner, past = {}, {}, set(), {}, set()
        nontrivial = False
        for n, edits in enumerate(case['sessions']):
            for e in edits:
                edit(p, e)
            for t in p.targets:
                t['includes'] = [i for i in INCS if not (t['variant'] and i == 'inc')]
            for t in p.targets:
                for out, key in p.calls(t).items():
                    if (out, key) in past and owner[out] != key:
                        return
            here = {out for t in p.targets for out in p.calls(t) if os.path.exists(os.path.join(d, out))}
            log = os.path.join(d, 'cclog')
            if os.path.exists(log):
                os.remove(log)
            results = env.call('jobs_cc', 'session', root=d, tools=env.base + '/tools', engine=ENGINES[case['comp']], jobs=case['jobs'],
                               comp=case['comp'], variants=VARIANTS, timeout=120,
                               targets=[{**t, 'srcs': [p.srcs[k]['path'] for k in t['srcs']]} for t in p.targets])
            cmds = []
            if os.path.exists(log):
                with open(log) as f:
                    cmds = [l.split('\037')[:-1] for l in f.read().split('\n')[:-1]]
            seen = {}
            for c in cmds:
                if c[0] in ('ranlib',):
                    continue
                out = c[c.index('-o') + 1] if '-o' in c else c[2]
                seen.setdefault(out, []).append(c)
            failed, ncomp, nall, nlink = set(), 0, 0, 0
            for ti, (t, r) in enumerate(zip(p.targets, results)):
                where = 'session %d, target %d (%s)' % (n, ti, t['dst'])
                calls = p.calls(t)
                if any(l in failed for l in t['libs']):
                    failed.add(ti)
                    if r != ['skip']:
                        raise Fail('%s: %r, but a library failed' % (where, r))
                    continue
                bad = [k for k in t['srcs'] if not p.compiles(t, k)]
                for k in t['srcs']:
                    o = p.obj(t, k)
                    did = seen.pop(o, [])
                    nall += 1
                    ncomp += bool(did)
                    if len(did) > 1:
                        raise Fail('%s: %s was compiled %d times' % (where, o, len(did)))
                    for c in did:
                        if c[0] != case['comp'] or '-c' not in c or p.srcs[k]['path'] not in c:
                            raise Fail('%s: %s was compiled with %r' % (where, o, c))
                        v = VARIANTS[t['variant']]
                        for part in [['-D' + m] for m in t['macros'] + v.get('macros', [])] + [['-W' + w] for w in t['warnings']] + [
                                ['-I' + i] for i in INCS + [os.path.dirname(p.srcs[k]['path'])]] + [t['cflags'], v.get('flags', [])]:
                            if not contains(c, part):
                                raise Fail('%s: %s was compiled without %r: %r' % (where, o, part, c))
                    key = (calls[o], p.texts(t, k))
                    need = compiled.get(o) != key or o not in here
                    if k not in bad and not bad and o not in maybe and bool(did) != need:
                        raise Fail('%s: %s was %scompiled' % (where, o, 'not ' if need else ''))
                    maybe.discard(o)
                    if did and k not in bad:
                        compiled[o] = key
                        if bad:
                            maybe.add(o)
                    elif did:
                        compiled.pop(o, None)
                        # which other record is there does not matter
                        maybe.add(o)
                    past.add((o, calls[o]))
                    owner[o] = calls[o]
                if bad:
                    failed.add(ti)
                    if r[0] != 'error' or 'no' not in r[1] and 'No such' not in r[1]:
                        raise Fail('%s: %r, but it does not compile' % (where, r))
                    continue
                out = p.output(t)
                symbols = {s for u in [t] + [p.targets[i] for i in p.all_libs(t)] for s in u['srcs']}
                undefined = not t['lib'] and any(s not in symbols for s in p.srcs[t['srcs'][0]]['refs'])
                state = (calls[out], tuple(digest(os.path.join(d, x)) for x in
                                           [p.obj(t, k) for k in t['srcs']] + [p.output(p.targets[i]) for i in p.all_libs(t)]))
                did = seen.pop(out, [])
                nlink += bool(did)
                if len(did) > 1:
                    raise Fail('%s: linked %d times' % (where, len(did)))
                for c in did:
                    tool = 'ar' if t['lib'] and t['kind'] == 'static' else case['comp']
                    if c[0] != tool or [x for x in c if x.endswith(p.suffix(t))] != [p.obj(t, k) for k in t['srcs']]:
                        raise Fail('%s: linked with %r' % (where, c))
                    ext = {x for u in [t] + [p.targets[i] for i in p.all_libs(t)] for x in u['external']}
                    if tool != 'ar' and (not contains(c, t['lflags']) or any('-l' + x not in c for x in ext)):
                        raise Fail('%s: linked with %r, without the flags or libraries' % (where, c))
                past.add((out, calls[out]))
                owner[out] = calls[out]
                if undefined:
                    failed.add(ti)
                    linked.pop(out, None)
                    if r[0] != 'error' or 'undefined' not in r[1]:
                        raise Fail('%s: %r, but a function is undefined' % (where, r))
                    continue
                need = linked.get(out) != state or out not in here
                if r[:2] != ['ok', out]:
                    raise Fail('%s: %r, expected %s' % (where, r, out))
                if bool(did) != need:
                    raise Fail('%s: was %slinked' % (where, 'not ' if need else ''))
                linked[out] = state
                if not t['lib']:
                    main = t['srcs'][0]
                    want = ''.join('%s %d\n' % (s, p.value(s)) for s in [main] + p.srcs[main]['refs'])
                    if r[2] != want:
                        raise Fail('%s: the program printed %r, expected %r' % (where, r[2], want))
            if any('build/obj' in ' '.join(c) for cs in seen.values() for c in cs):
                raise Fail('session %d: unexpected commands %r' % (n, seen))
            if n and (0 < ncomp < nall or nlink and ncomp < nall):
                nontrivial = True
        env.nontrivial(nontrivial)
        env.label(case['comp'])
    finally:
        env.clean(d)


def setup(env):
    os.makedirs(env.base + '/tools')
    for n in ('gcc', 'g++', 'ar', 'ranlib'):
        f = env.base + '/tools/' + n
        write(f, WRAPPER % (n, n))
        os.chmod(f, 0o755)
    for comp in ENGINES:
        d = env.base + '/cc-' + comp
        os.makedirs(d)
        env.call('jobs_cc', 'prepare', root=d, tools=env.base + '/tools', engine=ENGINES[comp], comp=comp, variants=VARIANTS, timeout=120)


PARTS = [Part('projects', lambda tier: projects(), run, 180, 8000, setup=setup)]
