"""Hypothesis strategies for generated projects and histories of sessions."""
from hypothesis import strategies as st

from pbt.dbmodel import NODEF, fun_id

SRCF = ['src/s%d.txt' % i for i in range(4)]
HDRF = ['src/h%d.txt' % i for i in range(3)]
POLICY = ['now', 'past', 'back', 'future']

YVALS = ['u', 'v', '', None, 'a b', ['T', 2, 'u'], ['L', 2], ['L', 'u', 'v'], ['D', ['k', 2]],
         ['T'], 7, ['F', 3, 4], ['P', 'src/zz']]


def declares(g):
    """Whether g has files its callers have to register; what it registers itself is theirs too."""
    return bool(g['ret'] or {'src', 'srcs', 'opt', 'dst', 'odst'} & {p for p, _ in g['params']})


def lit(v):
    return ['lit', v]


class Gen:
    """Draws a project; `feat` switches features."""

    def __init__(self, draw, feat):
        self.draw = draw
        self.feat = feat

    def pick(self, seq):
        return self.draw(st.sampled_from(list(seq)))

    def chance(self, percent):
        """True in about percent of the draws; shrinks to False."""
        return self.draw(st.integers(0, 99)) >= 100 - percent

    def int(self, a, b):
        return self.draw(st.integers(a, b))

    def content(self):
        return self.pick(['A', 'B', 'C', 'D'] + (['ERR'] if self.feat.get('err') and self.chance(25) else []))

    # -- functions -------------------------------------------------------------

    def func(self, i, later):
        f = {'name': 'f%d' % i, 'ver': 1, 'body': [], 'ret': None, 'res': 'str', 'kind': 'fun'}
        if self.feat.get('methods', True) and self.chance(30):
            f['kind'] = self.pick(['method', 'method', 'deco', 'prop'])
            f['cls'] = self.pick(['K', 'K', 'K2'])
            f['tag'] = self.pick(['k', 'q'])
        f['pos'] = self.pick(['top', 'end', 'nested', 'multi', 'comment'])
        ps = []
        if f['kind'] != 'prop':
            # some only have the files they register
            files = self.feat.get('files', True) and not self.chance(self.feat.get('plain_pct', 15))
            if files:
                s = self.pick(['none', 'src', 'srcs', 'opt', 'src'])
                if s in ('src', 'srcs'):
                    ps.append([s, NODEF])
            else:
                s = 'none'
            d = self.pick(['none', 'none', 'dst', 'odst']) if files else 'none'
            if d == 'dst':
                ps.append(['dst', NODEF])
            if self.chance(60):
                ps.append(['x', 3 if self.chance(40) else NODEF])
            if self.chance(30):
                ps.append(['y', 'u' if (ps and ps[-1][1] != NODEF) or self.chance(40) else NODEF])
            if f['kind'] == 'fun' and self.chance(12) and all(q[1] == NODEF for q in ps):
                ps.append(['xs', NODEF])
            if s == 'opt':
                ps.append(['opt', None])
            if d == 'odst':
                ps.append(['odst', None])
            if self.chance(10):
                ps.append(['k', 2 if self.chance(50) else NODEF])
            if f['kind'] == 'deco' or self.chance(10):
                ps.append(['kw', NODEF])
            if d == 'none' and files:
                f['ret'] = self.pick([None, None, None, 'DST', 'DSTS'])
        f['params'] = ps
        f['res'] = self.pick(['str', 'str', 'tuple', 'dict', 'list'])
        names = [p for p, _ in ps]
        f['touch'] = bool({'src', 'srcs', 'opt', 'dst', 'odst'} & set(names)) or bool(f['ret'])
        if not f['touch'] and f['kind'] != 'prop' and self.feat.get('files', True):
            f['touch'] = self.chance(80)
        f['body'] = self.body(f, later)
        return f

    def body(self, f, later):
        names = [p for p, _ in f['params']]
        B = []
        callable_ = [g for g in later if f['touch'] or not g['touch']]
        for _ in range(self.int(self.feat.get('min_body', 0), 3)):
            if self.feat.get('points') and self.chance(50):
                B.append(['point'])
            ops = ['none']
            if f['touch'] and f['kind'] != 'prop' and self.feat.get('ext', True):
                ops += ['ext', 'ext', 'extif', 'extout'] if 'min_body' not in self.feat else \
                    ['ext', 'extif', 'extif', 'extout', 'extout']
            if callable_:
                ops += ['call', 'call', 'call'] * (3 if 'min_body' in self.feat else 1)
                if self.feat.get('err') and any(not g['touch'] for g in callable_):
                    ops += ['try', 'try']
                if f['touch'] and self.feat.get('map', True) and \
                        any(g['kind'] not in ('prop',) for g in callable_):
                    ops += ['map'] * self.feat.get('map_weight', 1)
            if 'x' in names:
                if self.feat.get('err'):
                    ops += ['raiseif']
                if self.feat.get('rec', True) and f['kind'] != 'prop':
                    ops += ['rec']
            if self.feat.get('lists') and 'extif' in ops:
                ops += ['extif'] * 2 * len(ops)
            op = self.pick(ops if len(ops) == 1 or 'min_body' not in self.feat or self.chance(60) else ops[1:])
            if op == 'ext':
                B.append(['ext', self.pick(HDRF)])
            elif op == 'extif':
                B.append(['extif', self.pick(HDRF), self.pick(HDRF), self.pick(HDRF)])
            elif op == 'extout':
                B.append(['extout', self.draw(st.lists(st.sampled_from(HDRF), min_size=self.int(1, 2), max_size=3, unique=True))])
            elif op == 'raiseif':
                B.append(['raiseif', self.int(2, 5)])
            elif op == 'call':
                g = self.pick(callable_)
                mode = 'dep' if declares(g) or self.chance(30) else 'plain'
                B.append(['call', g['name'], self.args(g, f), mode, self.int(0, 1)])
            elif op == 'try':
                g = self.pick([g for g in callable_ if not g['touch']])
                B.append(['try', g['name'], self.args(g, f), 'plain', 0])
            elif op == 'map':
                g = self.pick([g for g in callable_ if g['kind'] != 'prop'])
                B.append(['map', g['name'], [self.args(g, f) for _ in range(self.int(1, 3))]])
            elif op == 'rec':
                a = self.args(f, f)
                a['x'] = ['dec', 'x']
                B.append(['rec', f['name'], a, 'dep', 0, 'x'])
        if self.feat.get('points') and self.chance(70):
            B.append(['point'])
        return B

    def args(self, g, f=None, results=()):
        """Argument expressions for a call of g from the body of f, or from a script."""
        own = {p for p, _ in f['params']} if f else set()
        a = {}
        for p, d in g['params']:
            if p == 'x':
                if d != NODEF and self.chance(40):
                    continue
                a[p] = ['par', 'x'] if 'x' in own and self.chance(50) else lit(self.int(2, 4))
            elif p == 'y':
                if d != NODEF and self.chance(40):
                    continue
                a[p] = lit(self.pick(YVALS))
            elif p == 'k':
                if d != NODEF and self.chance(40):
                    continue
                a[p] = lit(self.int(2, 3))
            elif p == 'src':
                rs = [i for i, r in results if r == 'DST']
                if 'src' in own and self.chance(50):
                    a[p] = ['par', 'src']
                elif rs and self.chance(60):
                    a[p] = ['res', self.pick(rs)]
                else:
                    a[p] = lit(self.pick(SRCF))
            elif p == 'srcs':
                rs = [i for i, r in results if r == 'DSTS']
                if 'srcs' in own and self.chance(50):
                    a[p] = ['par', 'srcs']
                elif 'src' in own and self.chance(40):
                    a[p] = ['par1', 'src']
                elif rs and self.chance(60):
                    a[p] = ['res', self.pick(rs)]
                else:
                    a[p] = lit([self.pick(['L', 'L', 'T'])] + self.draw(
                        st.lists(st.sampled_from(SRCF), max_size=3)))
            elif p == 'opt':
                if self.chance(60):
                    a[p] = lit(self.pick(SRCF + HDRF))
            elif p == 'dst':
                a[p] = ['out']
            elif p == 'odst':
                if self.chance(50):
                    a[p] = ['out']
            elif p == 'xs':
                a[p] = [lit(self.pick([2, 3, 'u'])) for _ in range(self.int(0, 2))]
            elif p == 'kw':
                a[p] = {k: lit(self.pick([2, 3, 'u'])) for k in self.pick(
                    [[], ['k1'], ['k1', 'k2'], ['k2']])}
        if a.get('xs') and any(p not in a for p, d in g['params'] if p in ('x', 'y')):
            a['xs'] = []
        return a

    def project(self, lo=2, hi=5):
        n = self.int(lo, hi)
        later = []
        for i in reversed(range(n)):
            later.insert(0, self.func(i, later))
        if self.feat.get('rec', True) and self.chance(12):
            # a mutually recursive pair of plain functions
            a, b = 'f%d' % n, 'f%d' % (n + 1)
            for me, other in ((a, b), (b, a)):
                later.append({
                    'name': me, 'kind': 'fun', 'ver': 1, 'pos': 'top', 'ret': None, 'res': 'str',
                    'params': [['x', NODEF]], 'touch': False,
                    'body': [['rec', other, {'x': ['dec', 'x']}, self.pick(['plain', 'dep']), 0, 'x']]})
        return later

    # -- histories -------------------------------------------------------------

    def step(self, funcs, results):
        if self.feat.get('topmap', True) and self.chance(self.feat.get('topmap_pct', 8)):
            calls = [self.call(funcs, ()) for _ in range(self.int(self.feat.get('topmap_min', 1), self.feat.get('topmap_max', 3)))]
            if self.feat.get('dup') and self.chance(50):
                # some of them several times
                calls += [self.pick(calls) for _ in range(self.int(1, 2))]
            return {'op': 'map', 'calls': calls}
        if self.feat.get('maintenance') and self.chance(15):
            return self.maintenance(funcs)
        if self.feat.get('fsteps', True) and self.chance(10):
            return {'op': 'fs', 'edit': self.fs_edit()}
        return self.call(funcs, results)

    def maintenance(self, funcs):
        if self.chance(60):
            f = self.pick(funcs)
            name = 'fbproj.' + self.pick([fun_id(f), fun_id(f), fun_id(f), f.get('cls', 'K'), 'unknown'])
            return {'op': 'db', 'do': 'delete_function', 'name': name}
        return {'op': 'db', 'do': 'delete_file',
                'name': self.pick(SRCF + HDRF + ['src/unknown', './src/s0.txt'])}

    def call(self, funcs, results):
        g = funcs[0] if self.chance(self.feat.get('first_pct', 0)) else self.pick(funcs)
        return {'op': 'call', 'fn': g['name'], 'a': self.args(g, None, results),
                'style': self.int(0, 1), 'full': g['kind'] != 'prop' and self.chance(self.feat.get('full_pct', 30))}

    def path(self):
        """A source file, mostly one that is used."""
        used = sorted(getattr(self, 'used', ()))
        return self.pick(used if used and self.chance(self.feat.get('used_pct', 70)) else HDRF + SRCF)

    def use(self, x):
        """Note the source files in a call or body."""
        if isinstance(x, str):
            if x in HDRF or x in SRCF:
                self.used.add(x)
        elif isinstance(x, dict):
            self.use(list(x.values()))
        elif isinstance(x, list):
            for y in x:
                self.use(y)

    def fs_edit(self):
        op = self.pick(self.feat.get('fsops') or
                       ['file', 'file', 'file', 'touch', 'rewrite', 'rmout', 'rm'])
        if op == 'file':
            return ['file', self.path(), self.content(), self.pick(POLICY)]
        if op in ('touch', 'rewrite'):
            return [op, self.path(), self.pick(POLICY)]
        if op == 'rmout':
            return ['rmout', self.int(0, 9)]
        return ['rm', self.path()]

    def edit(self, funcs):
        """Edits between sessions; function edits change funcs in place."""
        if self.feat.get('funedits', True) and self.chance(self.feat.get('funedit_pct', 40)):
            op = self.pick(['ver', 'ver', 'ver', 'body', 'init'])
            i = self.int(0, len(funcs) - 1)
            if op == 'ver':
                v = self.int(1, 3)
                funcs[i] = {**funcs[i], 'ver': v}
                return ['ver', i, v]
            if op == 'body' and funcs[i]['kind'] != 'prop' and not funcs[i]['name'] in _MUT(funcs):
                b = self.body(funcs[i], [g for g in funcs[i + 1:]])
                funcs[i] = {**funcs[i], 'body': b}
                return ['body', i, b]
            if op == 'init' and any(f['kind'] != 'fun' for f in funcs):
                # never an earlier one: objects that differ in their version are
                # different arguments, and their calls would share output files
                self.inits = getattr(self, 'inits', 1) + 1
                return ['init', self.inits]
            return ['ver', i, funcs[i]['ver']]
        return ['fs', self.fs_edit()]

    def sessions(self, funcs, lo, hi, max_steps=4):
        funcs = list(funcs)
        self.used = set()
        self.use([f['body'] for f in funcs])
        out = []
        menu = []
        for k in range(self.int(lo, hi)):
            edits = [] if k == 0 else [self.edit(funcs) for _ in range(self.int(0, 3))]
            steps, results = [], []
            for j in range(self.int(1, max_steps)):
                # repeat earlier calls often: a cache is only visible on a repeat
                if menu and self.chance(self.feat.get('repeat_pct', 75) if k else 55):
                    s = self.pick(menu)
                    if any(e[0] == 'res' for e in _exprs(s)):
                        s = self.step(funcs, results)
                else:
                    s = self.step(funcs, results)
                if s['op'] == 'map' and self.feat.get('repeat_maps') and s not in menu:
                    menu.append(s)
                if s['op'] == 'call' and not any(e[0] == 'res' for e in _exprs(s)) and s not in menu:
                    menu.append(s)
                if s['op'] == 'call':
                    r = next(f for f in funcs if f['name'] == s['fn'])['ret']
                    if r:
                        results.append((len(steps), r))
                steps.append(s)
                self.use(s)
            out.append({'edits': edits, 'steps': steps})
        return out


def _MUT(funcs):
    names = set()
    for f in funcs:
        for s in f['body']:
            if s[0] == 'rec' and s[1] != f['name']:
                names.add(f['name'])
    return names


def _exprs(s):
    for e in s.get('a', {}).values():
        if isinstance(e, dict):
            yield from e.values()
        elif e and isinstance(e[0], list):
            yield from e
        elif e:
            yield e


def histories(feat=None, lo=2, hi=5, sessions=(2, 5), engines=('pickle', 'sqlite'), max_steps=4):
    feat = dict(feat or {})

    @st.composite
    def build(draw):
        g = Gen(draw, feat)
        engine = g.pick(engines)
        files = {f: draw(st.sampled_from(['A', 'B', 'C'])) for f in SRCF + HDRF}
        policy = g.pick(['past', 'now', 'past', 'now', 'future'])
        funcs = g.project(lo, hi)
        ss = g.sessions(funcs, *sessions, max_steps=max_steps)
        return {'engine': engine, 'files': files, 'policy': policy, 'funcs': funcs, 'sessions': ss}
    return build()


#: Small projects whose calls are repeated often, with edits of the files they use.
FOCUS = {'full_pct': 80, 'repeat_pct': 93, 'used_pct': 93, 'funedit_pct': 10,
         'plain_pct': 75, 'min_body': 1, 'first_pct': 75, 'fsteps': False,
         'fsops': ['file', 'file', 'file', 'file', 'file', 'rmout', 'rm', 'touch']}


def focused(feat=None):
    return histories({**FOCUS, **(feat or {})}, lo=2, hi=3, sessions=(3, 6), max_steps=2)
