"""Programs of cached functions that use each other, and edits of their text (C03).

A project (JSON):
  units: [{name, kind: fun|method|prop, mod|cls, pos, ver, uses: [[cond, target, arg, mode]], live}]
     target: [unit name, class or None]   arg: 'x' | 'x-1' | int   mode: plain|call|map
     cond: 'always' | 'x==2' | 'x>2' | 'x>1'
  classes: {'A': {base, init: [pos, ver] or None}}
  lines: blank lines and comments put between the definitions;  order: reversed or not
"""
from hypothesis import strategies as st

from pbt.core import Fail
from pbt.dbmodel import enc, key, short

POS = ['code', 'comment', 'doc', 'nested', 'last', 'cont', 'col0', 'deco', 'multistr', 'lambda', 'blanks', 'indent']
INVISIBLE = {'comment', 'doc', 'last', 'cont', 'col0', 'deco', 'indent'}   # not part of the result
BASES = {'A': 'fbuild.db.PersistentObject', 'B': 'A', 'C': None}


# -- text ------------------------------------------------------------------------

def text_of(u):
    """What counts as the text of a unit: everything that ends up in its definition."""
    return repr([u['kind'], u['pos'], u['ver'], u['uses']])


def cond_holds(c, x):
    return {'always': True, 'x==2': x == 2, 'x>2': x > 2, 'x>1': x > 1}[c]


def body(u, self_, byname):
    ver, pos = u['ver'], u['pos']
    me = "type(self).__name__ + '.%s'" % u['name'] if self_ else repr(u['name'])
    ctx = 'self.ctx' if self_ else 'ctx'
    B = []
    if pos == 'doc':
        B.append('"""Version %d."""' % ver)
    if u['kind'] == 'prop':
        B += ['x = 2', 'acc = rt.Acc(%s, {})' % me]
    else:
        B.append("acc = rt.Acc(%s, {'x': x})" % me)
    if pos == 'code':
        B.append('acc.add(%d)' % ver)
    elif pos == 'comment':
        B.append('# version %d' % ver)
    elif pos == 'nested':
        B += ['def inner(n):', '    return n or inner(0 or %d)' % ver, '', 'acc.add(inner(0))']
    elif pos == 'cont':
        B += ['acc.add(0 if x else [', '    # %d' % ver, '])']
    elif pos == 'blanks':
        B.append('acc.add(len("%s"))' % (' ' * ver))
    elif pos == 'indent':
        B += ['if x is None:', ' ' * ver + 'pass']
    elif pos == 'lambda':
        B.append('acc.add((lambda:')
        B.append('    %d)())' % ver)
    for cond, (name, cls), arg, mode in u['uses']:
        v = byname[name]
        if v['kind'] == 'fun':
            ref, c = '%s.%s' % (v['mod'], name), '%s, ' % ctx
        else:
            ref, c = 'fbproj.%s(%s).%s' % (cls, ctx, name), ''
        a = arg if isinstance(arg, str) else str(arg)
        if v['kind'] == 'prop':
            e = ref
            if mode == 'map':
                e = '%s.scheduler.map(lambda i: %s, [0])[0]' % (ctx, e)
        elif mode == 'call':
            e = '%s.call(%s%s)[0]' % (ref, c, a)
        elif mode == 'map':
            e = '%s.scheduler.map(lambda i: %s(%s%s), [0])[0]' % (ctx, ref, c, a)
        else:
            e = '%s(%sx=%s)' % (ref, c, a) if mode == 'kw' else '%s(%s%s)' % (ref, c, a)
        if cond == 'always':
            B.append('acc.add(%s)' % e)
        else:
            B += ['if %s:' % cond.replace('==', ' == ').replace('>', ' > '), '    acc.add(%s)' % e]
    L = ['    ' + b if b else '' for b in B]
    if pos == 'col0':
        L.append('# version %d at the margin' % ver)
    if pos == 'multistr':
        L += ['    acc.add("""', '%d' % ver, '""".strip())']
    L.append('    return acc.done(acc.token())' + ('  # %d' % ver if pos == 'last' else ''))
    return L


def define(u, indent, byname):
    self_ = u['kind'] != 'fun'
    L = ['@fbuild.db.' + {'fun': 'caches', 'method': 'cachemethod', 'prop': 'cacheproperty'}[u['kind']]]
    if u['pos'] == 'deco':
        L.append('@rt.tagged(%d)' % u['ver'])
    L.append('def %s(%s%s):' % (u['name'], 'self' if self_ else 'ctx', '' if u['kind'] == 'prop' else ', x'))
    L += body(u, self_, byname)
    return [indent + l if l else '' for l in L]


def render(p):
    """{'fbproj.py': text, 'fblib.py': text}"""
    byname = {u['name']: u for u in p['units']}
    head = ['import fbuild', 'import fbuild.db', 'import rt', '']
    mods = {'fbproj': head + ['import fblib, fbproj', ''], 'fblib': head + ['import fbproj, fblib', '']}
    units = [u for u in p['units'] if u['live']]
    if p['order']:
        units = units[::-1]
    for n, u in enumerate(units):
        if u['kind'] == 'fun':
            L = mods[u['mod']]
            L += ['# between %d' % i for i in range(p['lines'])] + ['']
            L += define(u, '', byname) + ['']
    L = mods['fbproj']
    for c in 'ABC':
        cls = p['classes'][c]
        L += ['', 'class %s(%s):' % (c, BASES[c] or cls['base']), '    pass']
        if cls['init']:
            pos, ver = cls['init']
            L.append('    def __init__(self, ctx):')
            if c == 'A':
                L += ['        acc = rt.Acc(type(self).__name__, {})']
            L.append('        super().__init__(ctx)')
            if pos == 'code':
                L.append('        self.v%s = %d' % (c, ver))
            elif pos == 'comment':
                L.append('        # version %d' % ver)
            else:
                L.append('        ctx.logger  # %d' % ver)
            if c == 'A':
                L.append('        acc.done(None)')
        for u in units:
            if u['kind'] != 'fun' and c in u['cls']:
                L += [''] + define(u, '    ', byname)
    return {m + '.py': '\n'.join(l) + '\n' for m, l in mods.items()}


def mro(p, c):
    out = [c]
    while out[-1] != 'A':
        out.append('A' if out[-1] == 'B' else p['classes'][out[-1]]['base'])
    return out


def init_text(p, c):
    return repr([p['classes'][k]['init'] for k in mro(p, c) if p['classes'][k]['init']])


def state(p, c):
    return repr(sorted((k, p['classes'][k]['init'][1]) for k in mro(p, c)
                       if p['classes'][k]['init'] and p['classes'][k]['init'][0] == 'code'))


# -- generation --------------------------------------------------------------------

@st.composite
def cases(draw):
    def pick(seq):
        return draw(st.sampled_from(list(seq)))

    def chance(pc):
        return draw(st.integers(0, 99)) >= 100 - pc

    n = draw(st.integers(2, 7))
    units = []
    for i in range(n):
        kind = pick(['fun', 'fun', 'fun', 'method', 'prop'])
        u = {'name': '%s%d' % ('f' if kind == 'fun' else 'm', i), 'kind': kind, 'pos': pick(POS),
             'ver': 1, 'uses': [], 'live': True}
        if kind == 'fun':
            u['mod'] = pick(['fbproj', 'fbproj', 'fblib'])
        else:
            u['cls'] = ['A']
        units.append(u)

    def uses(i):
        out = []
        for _ in range(draw(st.integers(0, 3))):
            j = draw(st.integers(0, n - 1))
            v = units[j]
            if not v['live']:
                continue
            if j > i:
                cond, arg = pick(['always', 'always', 'x==2', 'x>2']), pick(['x', 'x', 2])
            elif units[i]['kind'] == 'prop' or v['kind'] == 'prop':
                continue
            else:
                cond, arg = 'x>1', 'x-1'
            if arg == 2 or v['kind'] == 'prop':
                # never with a greater x than one's own: every chain of calls ends
                cond = 'x==2' if cond == 'x==2' else 'x>1'
            cls = pick(['A', 'A', 'B', 'C']) if v['kind'] != 'fun' else None
            out.append([cond, [v['name'], cls], arg, pick(['plain', 'plain', 'kw', 'call', 'map'])])
        return out

    for i in range(n):
        units[i]['uses'] = uses(i)
    classes = {'A': {'base': None, 'init': [pick(['code', 'comment', 'expr']), 1]},
               'B': {'base': 'A', 'init': pick([None, ['code', 1], ['comment', 1]])},
               'C': {'base': pick(['A', 'B']), 'init': pick([None, None, ['code', 1]])}}
    p = {'units': [dict(u) for u in units], 'classes': {k: dict(v) for k, v in classes.items()},
         'lines': 0, 'order': False}
    names = [u['name'] for u in units]

    def request():
        live = [u for u in units if u['live']]
        u = pick(live)
        return [u['name'], pick(['A', 'A', 'B', 'C']) if u['kind'] != 'fun' else None,
                2 if u['kind'] == 'prop' else draw(st.integers(1, 4))]

    sessions = []
    menu = []
    removed = []
    for s in range(draw(st.integers(2, 6))):
        edits = []
        for _ in range(0 if s == 0 else draw(st.integers(0, 3))):
            op = pick(['ver', 'ver', 'ver', 'ver', 'uses', 'init', 'lines', 'order', 'rm', 'back'])
            i = draw(st.integers(0, n - 1))
            if op == 'ver' and units[i]['live']:
                units[i]['ver'] = draw(st.integers(1, 3))
                edits.append(['ver', i, units[i]['ver']])
            elif op == 'uses' and units[i]['live']:
                units[i]['uses'] = uses(i)
                edits.append(['uses', i, units[i]['uses']])
            elif op == 'init':
                c = pick('AABC')
                if classes[c]['init']:
                    classes[c]['init'] = [classes[c]['init'][0], draw(st.integers(1, 3))]
                    edits.append(['init', c, classes[c]['init']])
            elif op in ('lines', 'order'):
                edits.append([op, draw(st.integers(0, 2))])
            elif op == 'rm' and sum(u['live'] for u in units) > 1 and units[i]['live']:
                units[i]['live'] = False
                edits.append(['rm', i])
                for k, u in enumerate(units):
                    if any(t[0] == units[i]['name'] for _, t, _, _ in u['uses']):
                        u['uses'] = [w for w in u['uses'] if w[1][0] != units[i]['name']]
                        edits.append(['uses', k, u['uses']])
            elif op == 'back' and not units[i]['live']:
                units[i]['live'] = True
                units[i]['uses'] = [w for w in units[i]['uses'] if units[names.index(w[1][0])]['live']]
                edits.append(['uses', i, units[i]['uses']])
                edits.append(['back', i])
        reqs = []
        for _ in range(draw(st.integers(1, 4))):
            old = [r for r in menu if units[names.index(r[0])]['live']]
            if old and chance(65):
                r = pick(old)
            else:
                r = request()
                menu.append(r)
            reqs.append(r)
        sessions.append([edits, reqs])
    return {'engine': pick(['pickle', 'sqlite']), 'project': p, 'sessions': sessions}


# -- the model -----------------------------------------------------------------------

class Model:
    def __init__(self, p):
        self.p = p
        self.t = 0
        self.recs = {}          # key -> (time, {unit id: text then})
        self.ran = []           # (time, unit id, text)
        self.edges = {}         # unit id -> ids it used in any run
        self.last = {}          # unit id -> time of the last change of its text
        self.seen = {}          # unit id -> text in the last session
        self.stats = {'hit': 0, 'must': 0, 'may': 0, 'first': 0}

    def by(self, name):
        return next(u for u in self.p['units'] if u['name'] == name)

    def texts(self):
        out = {}
        for u in self.p['units']:
            if u['kind'] == 'fun':
                out[u['mod'] + '.' + u['name']] = text_of(u) if u['live'] else None
            else:
                for c in 'ABC':
                    out['fbproj.%s.%s' % (c, u['name'])] = text_of(u) if u['live'] else None
        for c in 'ABC':
            out['fbproj.' + c] = init_text(self.p, c)
        return out

    def begin(self):
        self.t += 1
        self.now = self.texts()
        for k, v in self.now.items():
            if self.seen.get(k, v) != v:
                self.last[k] = self.t
        self.seen = dict(self.now)

    def ids(self, r):
        name, cls, x = r
        u = self.by(name)
        if u['kind'] == 'fun':
            return u, u['mod'] + '.' + name, key(name, {'x': x}), ''
        a = {} if u['kind'] == 'prop' else {'x': x}
        return u, 'fbproj.%s.%s' % (cls, name), key('%s.%s' % (cls, name), a), state(self.p, cls)

    def value(self, r, memo):
        u, fid, k, s = self.ids(r)
        if k in memo:
            return memo[k]
        x = 2 if u['kind'] == 'prop' else r[2]
        items = [k]
        ver = u['ver']
        if u['pos'] in ('code', 'nested', 'lambda', 'blanks'):
            items.append(repr(ver))
        elif u['pos'] == 'cont':
            items.append(repr(enc(0)))
        for cond, (name, cls), arg, mode in u['uses']:
            if cond_holds(cond, x):
                items.append(repr(enc(self.value([name, cls, self.arg(arg, x)], memo))))
        if u['pos'] == 'multistr':
            items.append(repr(str(ver)))
        memo[k] = short('|'.join(items))
        return memo[k]

    @staticmethod
    def arg(arg, x):
        return {'x': x, 'x-1': x - 1}.get(arg, arg)

    def closure(self, fid):
        out, todo = set(), [fid]
        while todo:
            f = todo.pop()
            if f not in out:
                out.add(f)
                todo.extend(self.edges.get(f, ()))
        return out

    def must(self, k):
        t, dyn = self.recs[k]
        for f, text in dyn.items():
            if self.now.get(f) != text:
                return 'the text of %s changed' % f
            for t2, f2, text2 in self.ran:
                if t2 > t and f2 == f and text2 != text:
                    return 'the text of %s changed and was run (and was changed back)' % f
        return None

    def may(self, k, fid):
        t, dyn = self.recs[k]
        return any(self.last.get(f, -1) > t for f in self.closure(fid) | set(dyn))

    def call(self, k, shown, fid, obs, inner, where):
        """One requested call; obs is the list of started bodies still to come."""
        ran = bool(obs) and obs[0] == shown
        if ran:
            obs.pop(0)
            if k in self.recs:
                if not self.may(k, fid):
                    raise Fail('%s: %s ran again though neither it nor anything it used changed' % (
                        where, shown))
                self.stats['may'] += 1
            else:
                self.stats['first'] += 1
            self.recs.pop(k, None)
            self.ran.append((self.t, fid, self.now[fid]))
            dyn = {fid: self.now[fid]}
            for f, d in inner():
                self.edges.setdefault(fid, set()).add(f)
                dyn.update({g: self.now[g] for g in d})
            self.recs[k] = (self.t, dyn)
        else:
            if k not in self.recs:
                raise Fail('%s: %s was not run although it never ran before%s' % (
                    where, shown, '; instead %s' % obs[0] if obs else ''))
            why = self.must(k)
            if why:
                raise Fail('%s: %s was answered from the database but %s' % (where, shown, why))
            self.stats['hit'] += 1
        return self.recs[k][1]

    def request(self, r, obs, where):
        """[(function used, what it used)] of the request, checking what ran."""
        u, fid, k, s = self.ids(r)
        used = []
        if u['kind'] != 'fun':
            cid = 'fbproj.' + r[1]
            used.append((cid, self.call('new ' + r[1], key(r[1], {}), cid, obs, lambda: [], where)))

        def inner():
            out = []
            x = 2 if u['kind'] == 'prop' else r[2]
            for cond, (name, cls), arg, mode in u['uses']:
                if cond_holds(cond, x):
                    out += self.request([name, cls, self.arg(arg, x)], obs, where)
            return out
        used.append((fid, self.call(k + s, k, fid, obs, inner, where)))
        return used

    def edit(self, e):
        op = e[0]
        us = self.p['units']
        if op == 'ver':
            us[e[1]]['ver'] = e[2]
        elif op == 'uses':
            us[e[1]]['uses'] = e[2]
        elif op == 'init':
            self.p['classes'][e[1]]['init'] = e[2]
        elif op == 'lines':
            self.p['lines'] = e[1]
        elif op == 'order':
            self.p['order'] = bool(e[1] % 2)
        elif op == 'rm':
            us[e[1]]['live'] = False
        elif op == 'back':
            us[e[1]]['live'] = True
