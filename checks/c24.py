"""C24: OCaml projects build correctly and incrementally."""
import os
import shutil

from hypothesis import strategies as st

from pbt.core import Fail, Part
from checks.c21 import WRAPPER, contains, digest, write

ID = 'C24'
LEVEL = 'exploration'
TECHNIQUE = ('stateful property-based testing: generated OCaml projects, edited over several processes, against a model of '
             'what the programs print and which commands have to run')
NOTE = 'Random search with shrinking.'
RULE = ('A case is a project and a history of edits and builds; non-trivial: a build after the first one compiled some but not '
        'all objects, or linked without compiling everything.')
ASSUMPTIONS = ['modules have different names',
               'every object, library and program is written by one call; arguments are not changed back to earlier ones '
               '(see the known finding of C19)']
TOOLS = ['ocamlc.opt', 'ocamlopt.opt', 'ocamldep.opt', 'ocamllex.opt', 'ocamlyacc']
KINDS = {'byte': 'pickle', 'native': 'sqlite', 'both': 'pickle'}


@st.composite
def projects(draw):
    def pick(xs):
        return draw(st.sampled_from(xs))

    def some(xs, most):
        return sorted(draw(st.sets(st.sampled_from(xs), max_size=most))) if xs else []

    kind = pick(['byte', 'native', 'both'])
    nlib = draw(st.integers(0, 2))
    nexe = draw(st.integers(1, 2))
    mods, targets = [], []
    for t in range(nlib + nexe):
        lib = t < nlib
        what = pick(['lib', 'lib', 'pack'] if kind != 'both' else ['lib']) if lib else 'exe'
        libs = [i for i in range(min(t, nlib)) if what != 'pack' and targets[i]['what'] == 'lib' and draw(st.integers(0, 3)) > 0]
        packs = [i for i in range(nlib) if what == 'exe' and targets[i]['what'] == 'pack' and draw(st.integers(0, 3)) > 0]
        libs = sorted(set(libs) | {j for i in libs for j in targets[i]['libs']})
        sub = pick(['', 'd%d/' % t, 'd%d/' % t, 'd%d/sub/' % t, 'e/'])
        mine = []
        for k in range(draw(st.integers(1, 4))):
            n = len(mods)
            visible = mine + [m for i in libs + packs for m in targets[i]['mods']]
            gen = pick(['ml'] * 6 + ['mll', 'mly'])
            mods.append({'name': pick(['m%d', 'm%d', 'M%d', "m%d'_x"]) % n, 'dir': pick([sub, sub, sub, 'd%d/' % t] if not lib else [sub]),
                         'gen': gen, 'mli': gen == 'ml' and draw(st.booleans()), 'val': draw(st.integers(1, 99)), 'deep': draw(st.booleans()), 'opaque': draw(st.booleans()),
                         'uses': some(visible, 3), 'types': some([m for m in visible if mods[m]['gen'] != 'mly'], 1)})
            mine.append(n)
        if not lib:
            visible = mine + [m for i in libs + packs for m in targets[i]['mods']]
            mods.append({'name': 'main%d' % t, 'dir': sub, 'gen': 'ml', 'mli': draw(st.booleans()), 'deep': False, 'opaque': False, 'val': 1, 'uses': visible, 'types': []})
            mine.append(len(mods) - 1)
        targets.append({'name': t, 'what': what, 'how': pick(['build', 'build', 'steps']) if what != 'pack' else 'build', 'libs': libs, 'packs': packs, 'mods': mine, 'order': draw(st.permutations(range(2 * len(mine)))),
                        'dst': (sub if lib else pick(['', sub])) + 't%d' % t,
                        'cflags': pick([[], [], ['-w', '-50']]), 'lflags': pick([[], [], ['-linkall']])})
    sessions = []
    for _ in range(draw(st.integers(1, 4))):
        edits = []
        for _ in range(draw(st.integers(0, 3))):
            e = [pick(['val', 'val', 'val', 'extra', 'extra', 'comment', 'icomment', 'touch', 'rewrite', 'uses', 'flags', 'rm', 'rm', 'rm', 'rm', 'mli', 'mli', 'error', 'new', 'drop'])]
            if e[0] in ('flags', 'new', 'drop', 'rm'):
                e.append(draw(st.integers(0, nlib + nexe - 1)))
            else:
                e.append(draw(st.integers(0, len(mods) - 1)))
            if e[0] in ('uses', 'rm', 'new'):
                e.append(draw(st.integers(0, 99)))
            if e[0] == 'rm':
                e.append(draw(st.integers(0, 2)))
            edits.append(e)
        sessions.append(edits)
    return {'kind': kind, 'jobs': pick([1, 4]), 'mods': mods, 'targets': targets, 'sessions': [[]] + sessions}


class Project:
    def __init__(self, case, root):
        self.root, self.kind = root, case['kind']
        self.mods = [dict(m, target=next(t['name'] for t in case['targets'] if i in t['mods']), comment=0, icomment=0, extras=[], bad=False) for i, m in enumerate(case['mods'])]
        self.targets = [dict(t, mods=list(t['mods'])) for t in case['targets']]
        self.fresh = 100

    def number(self):
        self.fresh += 1
        return self.fresh

    # the texts

    def pack(self, m):
        t = self.targets[self.mods[m]['target']]
        return t if t['what'] == 'pack' else None

    def cap(self, m, user):
        """The name of a module in another one."""
        n = self.mods[m]['name']
        pack = self.pack(m)
        return ('T%d.' % pack['name'] if pack and self.pack(user) is not pack else '') + n[0].upper() + n[1:]

    def sum(self, m, user):
        """What a module that uses this one computes of it."""
        n = self.cap(m, user)
        return ('%s.start (fun _ -> %s.EOF) (Lexing.from_string "")' % (n, n) if self.mods[m]['gen'] == 'mly' else '%s.v' % n) + ''.join(
            ' + %s.e%d' % (n, e) for e in self.mods[m]['extras'] if self.mods[m]['deep'])

    def body(self, m):
        x = self.mods[m]
        if x['name'].startswith('main'):
            out = 'let v = 0\nlet () = %s\n' % '; '.join(
                ['print_endline "%d"' % x['val']] + ['Printf.printf "%%s %%d\\n" "%s" (%s)' % (self.cap(u, m), self.sum(u, m)) for u in x['uses']])
        else:
            out = 'let v = %s\n' % ' + '.join([('Sys.opaque_identity %d' if x['opaque'] else '%d') % x['val']] + ['(%s)' % self.sum(u, m) for u in x['uses']])
        out += 'type t = %s\n' % ' * '.join(['int'] + ['%s.t' % self.cap(u, m) for u in x['types']] + ['int'] * len(x['extras']))
        for e in x['extras']:
            out += 'let e%d = %d\n' % (e, e)
        return out + '(* %d *)\n' % x['comment'] + ('let = in\n' if x['bad'] else '')

    def text(self, m):
        x, b = self.mods[m], self.body(m)
        if x['gen'] == 'mll':
            return '{\n%s}\nrule tok = parse eof { 0 }\n' % b
        if x['gen'] == 'mly':
            return '%%{\n%s%%}\n%%token EOF\n%%start start\n%%type <int> start\n%%%%\nstart: EOF { v };\n' % b
        return b

    def itext(self, m):
        """The text of the interface file, or what decides it."""
        x = self.mods[m]
        if x['gen'] == 'mly':
            return 'yacc'
        if not x['mli']:
            return None
        return 'val v : int\ntype t = %s\n%s(* %d *)\n' % (
            ' * '.join(['int'] + ['%s.t' % self.cap(u, m) for u in x['types']] + ['int'] * len(x['extras'])), ''.join('val e%d : int\n' % e for e in x['extras']),
            x['icomment'])

    def path(self, m, ext=None):
        x = self.mods[m]
        return x['dir'] + x['name'] + '.' + (ext or x['gen'])

    def put(self, m):
        write(os.path.join(self.root, self.path(m)), self.text(m))
        if self.mods[m]['mli']:
            write(os.path.join(self.root, self.path(m, 'mli')), self.itext(m))

    # what they mean

    def uses(self, m):
        return set(self.mods[m]['uses']) | set(self.mods[m]['types'])

    def iuses(self, m):
        return set() if self.mods[m]['gen'] == 'mly' else set(self.mods[m]['types'])

    def value(self, m):
        return self.mods[m]['val'] + sum(self.total(u) for u in self.mods[m]['uses'])

    def total(self, m):
        return self.value(m) + (sum(self.mods[m]['extras']) if self.mods[m]['deep'] else 0)

    def files(self, f, native, seen):
        """Adds the files that file (module, 'ml' or 'mli') depends on."""
        if f in seen:
            return seen
        seen.add(f)
        m, what = f
        for u in self.uses(m) if what == 'ml' else self.iuses(m):
            if self.pack(u) and self.pack(u) is not self.pack(m):
                seen.add((self.pack(u)['name'], 'pack'))
                continue
            has = self.itext(u) is not None
            if has:
                self.files((u, 'mli'), native, seen)
            if native or not has:
                self.files((u, 'ml'), native, seen)
        if what == 'ml' and self.itext(m) is not None:
            self.files((m, 'mli'), native, seen)
        return seen

    def includes(self, t):
        out = set()
        for m in t['mods']:
            sub = self.mods[m]['dir']
            out |= {'build/' + sub} | ({sub} if sub and self.mods[m]['gen'] == 'ml' else set())
        return sorted(out)

    def content(self, f, native):
        if f[1] != 'pack':
            return self.text(f[0]) if f[1] == 'ml' else self.itext(f[0])
        out = os.path.join(self.root, 'build', self.targets[f[0]]['dst'])
        return digest(out + '.cmi'), native and digest(out + '.cmx')

    def state(self, t, m, what, native):
        fs = self.files((m, what), native, set())
        return tuple(t['cflags']), tuple(self.includes(t)), tuple(sorted((f, self.content(f, native)) for f in fs))

    def compiles(self, m, what, native):
        return not any(self.mods[f[0]]['bad'] for f in self.files((m, what), native, set()) if f[1] == 'ml')

    def units(self, t):
        """Files to compile: (module, what, native), with the object written."""
        out = {}
        for native in [False, True] if self.kind == 'both' else [self.kind == 'native']:
            for m in t['mods']:
                if self.itext(m) is not None:
                    out['build/' + self.path(m, 'cmi')] = (m, 'mli', False)
                out['build/' + self.path(m, 'cmx' if native else 'cmo')] = (m, 'ml', native)
        return out

    def given(self, t):
        """The include paths given."""
        dirs = ['build/' + self.mods[self.targets[i]['mods'][-1]]['dir'] for i in t['packs']]
        if t['how'] == 'steps':
            dirs += self.includes(t)
            for i in t['libs']:
                d = os.path.dirname(self.targets[i]['dst'])
                dirs += ['build/' + d] + ([d] if d else [])
        return sorted({d.rstrip('/') for d in dirs})

    def parts(self, t, out):
        """All the files written with an output."""
        base, ext = os.path.splitext(out)
        fs = [out] + {'.cmx': [base + '.o'], '.cmxa': [base + '.a']}.get(ext, [])
        # compiling to bytecode comes first and restores the interface
        if ext in ('.cmo', '.cmx') and (self.kind, ext) != ('both', '.cmx') and (out not in self.units(t) or self.itext(self.units(t)[out][0]) is None):
            fs.append(base + '.cmi')
        return fs

    def there(self, t, out):
        return all(os.path.exists(os.path.join(self.root, f)) for f in self.parts(t, out))

    def srcs(self, t):
        if t['how'] == 'steps':
            return [self.path(m, x) for m in t['mods'] for x in (['mli'] if self.mods[m]['mli'] else []) + [self.mods[m]['gen']]]
        fs = [self.path(m) for m in t['mods']] + [self.path(m, 'mli') for m in t['mods'] if self.mods[m]['mli']]
        return [fs[i] for i in t['order'] if i < len(fs)] + fs[len(t['order']):]

    def outputs(self, t):
        out = []
        for native in [False, True] if self.kind == 'both' else [self.kind == 'native']:
            o = 'build/' + t['dst'] + ('' if self.kind != 'both' else '.native' if native else '.byte')
            out.append((o + {'lib': ['.cma', '.cmxa'], 'pack': ['.cmo', '.cmx'], 'exe': ['', '']}[t['what']][native], native))
        return out


def edit(p, e):
    kind = e[0]
    if kind in ('val', 'extra', 'comment', 'icomment', 'error'):
        x = p.mods[e[1]]
        if kind == 'val':
            x.update(val=p.number(), bad=False)
        elif kind == 'extra':
            if x['gen'] == 'mly':
                return
            x['extras'].append(p.number())
            for n in range(len(p.mods)):
                if x['deep'] and e[1] in p.mods[n]['uses']:
                    p.put(n)
        elif kind == 'error':
            x.update(bad=True, comment=p.number())
        else:
            x[kind] = p.number()
        p.put(e[1])
    elif kind == 'mli':
        x = p.mods[e[1]]
        if x['gen'] == 'ml' and not (x['mli'] and p.targets[x['target']]['how'] == 'steps'):
            x.update(mli=not x['mli'], icomment=p.number())
            if not x['mli']:
                os.remove(os.path.join(p.root, p.path(e[1], 'mli')))
            p.put(e[1])
    elif kind == 'touch':
        os.utime(os.path.join(p.root, p.path(e[1])))
    elif kind == 'rewrite':
        p.put(e[1])
    elif kind == 'uses':
        x = p.mods[e[1]]
        t = next((t for t in p.targets if e[1] in t['mods']), None)
        if t is None or x['name'].startswith('main'):
            return
        visible = t['mods'][:t['mods'].index(e[1])] + [m for i in t['libs'] + t['packs'] for m in p.targets[i]['mods']]
        if visible:
            m = visible[e[2] % len(visible)]
            x['uses'] = [u for u in x['uses'] if u != m] if m in x['uses'] else x['uses'] + [m]
            x['comment'] = p.number()
            p.put(e[1])
    elif kind == 'flags':
        p.targets[e[1]]['cflags'] = ['-w', '-%d' % (p.number() % 60 + 1)]
    elif kind == 'rm':
        t = p.targets[e[1]]
        outs = [o for o, _ in p.outputs(t)] if e[2] % 2 else list(p.units(t))
        parts = p.parts(t, outs[e[2] // 2 % len(outs)])
        f = os.path.join(p.root, parts[e[3] % len(parts)])
        if os.path.exists(f):
            os.remove(f)
    elif kind == 'new':
        t = p.targets[e[1]]
        n = len(p.mods)
        p.mods.append({'name': 'n%d' % n, 'dir': p.mods[t['mods'][-1]]['dir'], 'gen': 'ml', 'target': e[1], 'mli': bool(e[2] & 1), 'deep': False, 'opaque': bool(e[2] & 4), 'val': p.number(),
                       'uses': [m for m in t['mods'][:1] if not p.mods[m]['name'].startswith('main')] if e[2] & 2 else [], 'types': [],
                       'comment': 0, 'icomment': 0, 'extras': [], 'bad': False})
        t['mods'].insert(len(t['mods']) - (t['what'] == 'exe'), n)
        p.put(n)
        for u in p.targets:
            if u['what'] == 'exe' and (u is t or e[1] in u['libs'] + u['packs']):
                main = next(m for m in u['mods'] if p.mods[m]['name'].startswith('main'))
                p.mods[main]['uses'] = p.mods[main]['uses'] + [n]
                p.put(main)
    elif kind == 'drop':
        t = p.targets[e[1]]
        m = t['mods'][0]
        if p.mods[m]['name'].startswith('main') or not any(p.mods[o]['dir'] == p.mods[m]['dir'] for o in t['mods'][1:]):
            return
        t['mods'].remove(m)
        for n, x in enumerate(p.mods):
            if m in x['uses'] or m in x['types']:
                x['uses'] = [u for u in x['uses'] if u != m]
                x['types'] = [u for u in x['types'] if u != m]
                p.put(n)


def run(case, env):
    d = env.scratch()
    try:
        shutil.copytree(env.base + '/ml-' + case['kind'], d, dirs_exist_ok=True, symlinks=True)
        p = Project(case, d)
        for m in range(len(p.mods)):
            p.put(m)
        compiled, linked, maybe, past, owner = {}, {}, set(), set(), {}
        nontrivial = False
        for n, edits in enumerate(case['sessions']):
            for e in edits:
                edit(p, e)
            for t in p.targets:
                key = repr([p.srcs(t), t['cflags'], t['lflags']])
                if (t['name'], key) in past and owner[t['name']] != key:
                    return
                past.add((t['name'], key))
                owner[t['name']] = key
                key = repr([p.includes(t), t['cflags']])
                if (t['dst'], key) in past and owner[t['dst']] != key:
                    return
                past.add((t['dst'], key))
                owner[t['dst']] = key
            here = {f for t in p.targets for f in [*p.units(t), *[o for o, _ in p.outputs(t)]] if p.there(t, f)}
            log = os.path.join(d, 'cclog')
            if os.path.exists(log):
                os.remove(log)
            results = env.call('jobs_ml', 'session', root=d, tools=env.base + '/tools', engine=KINDS[case['kind']], jobs=case['jobs'],
                               kind=case['kind'], timeout=120,
                               targets=[{'name': t['name'], 'what': t['what'], 'how': t['how'], 'dst': t['dst'], 'srcs': p.srcs(t),
                                         'includes': p.given(t), 'cflags': t['cflags'], 'lflags': t['lflags'], 'libs': t['libs'], 'packs': t['packs']}
                                        for t in p.targets])
            cmds = []
            if os.path.exists(log):
                with open(log) as f:
                    cmds = [l.split('\037')[:-1] for l in f.read().split('\n')[:-1]]
            seen = {}
            for c in cmds:
                if c[0] in ('ocamlc.opt', 'ocamlopt.opt') and '-o' in c:
                    seen.setdefault(c[c.index('-o') + 1], []).append(c)
            failed, ncomp, nall, nlink = set(), 0, 0, 0
            for ti, (t, r) in enumerate(zip(p.targets, results)):
                where = 'session %d, target %d (%s)' % (n, ti, t['dst'])
                if any(l in failed for l in t['libs'] + t['packs']):
                    failed.add(ti)
                    if r != ['skip']:
                        raise Fail('%s: %r, but a library failed' % (where, r))
                    continue
                units = p.units(t)
                bad = [o for o, u in units.items() if not p.compiles(*u)]
                before = ncomp
                for o, (m, what, native) in units.items():
                    did = seen.pop(o, [])
                    nall += 1
                    ncomp += bool(did)
                    if len(did) > 1:
                        raise Fail('%s: %s was compiled %d times' % (where, o, len(did)))
                    for c in did:
                        if c[0] != ('ocamlopt.opt' if native else 'ocamlc.opt') or '-c' not in c or not contains(c, t['cflags']) or \
                                t['what'] == 'pack' and not contains(c, ['-for-pack', 'T%d' % t['name']]):
                            raise Fail('%s: %s was compiled with %r' % (where, o, c))
                    key = p.state(t, m, what, native)
                    need = compiled.get(o) != key or o not in here
                    if not bad and o not in maybe and bool(did) != need:
                        raise Fail('%s: %s was %scompiled' % (where, o, 'not ' if need else ''))
                    maybe.discard(o)
                    if bad:
                        if did:
                            compiled.pop(o, None)
                            if o not in bad:
                                compiled[o] = key
                            maybe.add(o)
                    elif did:
                        compiled[o] = key
                if bad:
                    failed.add(ti)
                    if r[0] != 'error' or 'rror' not in r[1]:
                        raise Fail('%s: %r, but it does not compile' % (where, r))
                    continue
                outs = p.outputs(t)
                if r[:2] != ['ok', [o for o, _ in outs]]:
                    raise Fail('%s: %r, expected %r' % (where, r, outs))
                for k, (out, native) in enumerate(outs):
                    objs = [o for o, u in units.items() if u[1] == 'mli' or u[2] == native]
                    libs = [p.outputs(p.targets[i])[k][0] for i in t['libs']]
                    objs += [p.outputs(p.targets[i])[k][0] for i in t['packs']]
                    ins = objs + libs
                    if t['what'] == 'pack':
                        ins += [o[:-3] + 'cmi' for o in objs]
                    if native:
                        ins += [o[:-3] + 'o' for o in objs if o.endswith('.cmx')] + [l[:-4] + 'a' for l in libs]
                    flags = t['cflags' if t['what'] == 'pack' else 'lflags']
                    state = (tuple(p.srcs(t)), tuple(flags), tuple(sorted((x, digest(os.path.join(d, x))) for x in ins)))
                    did = seen.pop(out, [])
                    nlink += bool(did)
                    if len(did) > 1:
                        raise Fail('%s: linked %d times' % (where, len(did)))
                    for c in did:
                        if c[0] != ('ocamlopt.opt' if native else 'ocamlc.opt') or not contains(c, flags) or \
                                ('-a' in c) != (t['what'] == 'lib') or ('-pack' in c) != (t['what'] == 'pack') or sorted(x for x in c if x.endswith('.cmx' if native else '.cmo') and x != out) != sorted(o for o in objs if not o.endswith('.cmi')):
                            raise Fail('%s: linked with %r' % (where, c))
                    need = linked.get(out) != state or out not in here
                    # compiling and packing are one call
                    if bool(did) != need and not (t['what'] == 'pack' and ncomp > before):
                        raise Fail('%s: %s was %slinked' % (where, out, 'not ' if need else ''))
                    linked[out] = state
                    if t['what'] == 'exe':
                        main = next(m for m in t['mods'] if p.mods[m]['name'].startswith('main'))
                        want = '%d\n' % p.mods[main]['val'] + ''.join('%s %d\n' % (p.cap(u, main), p.total(u)) for u in p.mods[main]['uses'])
                        if r[2][k] != want:
                            raise Fail('%s: the program printed %r, expected %r' % (where, r[2][k], want))
            if seen and not failed:
                raise Fail('session %d: unexpected commands %r' % (n, seen))
            if n and (0 < ncomp < nall or nlink and ncomp < nall):
                nontrivial = True
        env.nontrivial(nontrivial)
        env.label(case['kind'])
        for t in case['targets']:
            env.label(t['what'] + ('' if t['how'] == 'build' else ' ' + t['how']))
    finally:
        env.clean(d)


def setup(env):
    os.makedirs(env.base + '/tools')
    for n in TOOLS:
        f = env.base + '/tools/' + n
        write(f, WRAPPER % (n, n))
        os.chmod(f, 0o755)
    for kind in KINDS:
        d = env.base + '/ml-' + kind
        os.makedirs(d)
        env.call('jobs_ml', 'prepare', root=d, tools=env.base + '/tools', engine=KINDS[kind], kind=kind, timeout=120)


PARTS = [Part('projects', lambda tier: projects(), run, 150, 8000, setup=setup)]
