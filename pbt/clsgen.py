"""Projects whose cached functions take and return instances of classes that are renamed,
moved, changed and removed between builds (part of C01)."""
import os

from hypothesis import strategies as st

from pbt.core import Fail

KINDS = ['plain', 'persist', 'tuple', 'nested']


@st.composite
def shape(draw, n, depth=2):
    k = draw(st.integers(0, 9))
    if k <= 4 or depth == 0 and k <= 7:
        return ['c', draw(st.integers(0, n - 1)), draw(st.integers(0, 2))]
    if k <= 6 and depth:
        return [draw(st.sampled_from('LTD'))] + draw(st.lists(shape(n, depth - 1), min_size=1, max_size=2))
    return draw(st.integers(0, 2))


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    classes = [{'kind': draw(st.sampled_from(KINDS)), 'mod': 'm%d' % draw(st.integers(0, 1)),
                'name': 'C%d' % i, 'y': False, 'here': True, 'method': draw(st.booleans())} for i in range(n)]
    funs = [draw(st.one_of(shape(n), st.just(1))) for _ in range(draw(st.integers(1, 3)))]
    calls = []
    for _ in range(draw(st.integers(1, 5))):
        if draw(st.integers(0, 3)) == 0:
            calls.append(['m', draw(st.integers(0, n - 1)), draw(shape(n))])
        else:
            calls.append(['f', draw(st.integers(0, len(funs) - 1)), draw(shape(n))])
    sessions = []
    for s in range(draw(st.integers(2, 5))):
        edits = []
        for _ in range(draw(st.integers(0, 2)) if s else 0):
            k = draw(st.sampled_from(['rename', 'move', 'gone', 'back', 'fields', 'module']))
            edits.append([k, draw(st.integers(0, n - 1))])
        sessions.append({'edits': edits, 'calls': draw(st.lists(
            st.integers(0, len(calls) - 1), min_size=1, max_size=6))})
    return {'engine': draw(st.sampled_from(['pickle', 'sqlite'])), 'classes': classes, 'funs': funs,
            'calls': calls, 'sessions': sessions}


class Model:
    def __init__(self, case):
        self.classes = [dict(c) for c in case['classes']]
        self.funs = case['funs']
        self.names = 0
        self.time = 0
        self.touched = [0] * len(self.classes)
        self.texts = {}         # function -> time its text changed

    def edit(self, e):
        op, k = e
        c = self.classes[k]
        self.names += 1
        self.time += 1
        hit = [k]
        if op == 'rename':
            c['name'] = 'N%d' % self.names
        elif op == 'move':
            # to the other module, which may be new
            c['mod'] = 'm1' if c['mod'] == 'm0' else 'm%d' % (self.names + 10)
            c['name'] = 'N%d' % self.names
        elif op == 'module':
            old, new = c['mod'], 'm%d' % (self.names + 10)
            hit = [i for i, d in enumerate(self.classes) if d['mod'] == old]
            for i in hit:
                self.classes[i]['mod'] = new
        elif op == 'gone':
            c['here'] = False
        elif op == 'back':
            if not c['here']:
                c['here'] = True
                c['name'] = 'N%d' % self.names
        elif op == 'fields':
            c['y'] = not c['y']
            if not c['y']:
                # the old instances would be those of the class again
                c['name'] = 'N%d' % self.names
        for i in hit:
            self.touched[i] = self.time

    # -- text --

    def expr(self, s):
        """The source text of a result; does not tell where the classes are."""
        if not isinstance(s, list):
            return repr(s)
        if s[0] == 'c':
            c = self.classes[s[1]]
            return 'make(ctx, %d, %d%s)' % (s[1], s[2], ', y=7' if c['y'] else '') if c['here'] else repr(s[2])
        items = [self.expr(x) for x in s[1:]]
        if s[0] == 'L':
            return '[%s]' % ', '.join(items)
        if s[0] == 'T':
            return '(%s)' % ''.join(x + ', ' for x in items)
        return '{%s}' % ', '.join('%d: %s' % (i, x) for i, x in enumerate(items))

    def files(self):
        mods = {}
        for k, c in enumerate(self.classes):
            if not c['here']:
                continue
            t = mods.setdefault(c['mod'], ['import collections\nimport fbuild.db\n'])
            fields = ['x', 'y'] if c['y'] else ['x']
            args = 'x, y=7' if c['y'] else 'x'
            body = '\n'.join('        self.%s = %s' % (f, f) for f in fields)
            if c['kind'] == 'tuple':
                # equal to no other tuple
                t.append('%s = collections.namedtuple(%r, %r, defaults=[%r])\n' % (
                    c['name'], c['name'], fields + ['tag'], 'c%d' % k))
                continue
            if c['kind'] == 'persist':
                m = ''
                if c['method']:
                    m = ('\n    @fbuild.db.cachemethod\n    def m(self, v):\n        import fbproj\n'
                         '        fbproj.RUNS.append("m%d")\n        return [self, v]\n' % k)
                t.append('class %s(fbuild.db.PersistentObject):\n    def __init__(self, ctx, %s):\n'
                         '        super().__init__(ctx)\n%s\n%s' % (c['name'], args, body, m))
                continue
            text = ('class %s:\n    __plain__ = True\n    __hash__ = None\n\n    def __init__(self, %s):\n%s\n\n'
                    '    def __eq__(self, other):\n'
                    '        return type(other) is type(self) and vars(other) == vars(self)\n' % (
                        c['name'], args, body))
            if c['kind'] == 'nested':
                text = 'class In%s:\n' % c['name'] + '\n'.join('    ' + x if x else '' for x in text.split('\n'))
            t.append(text)
        out = {m: '\n\n'.join(t) for m, t in mods.items()}
        p = ['import fbuild.db'] + ['import ' + m for m in sorted(mods)]
        p.append('\nRUNS = []\n\n\ndef make(ctx, k, x, **kw):')
        for k, c in enumerate(self.classes):
            if c['here']:
                p.append('    if k == %d:\n        return %s.%s(%sx%s)' % (
                    k, c['mod'], self.qual(c), 'ctx, ' if c['kind'] == 'persist' else '',
                    ', 7' if c['y'] else ''))
        p.append('    return x\n')
        for i, ret in enumerate(self.funs):
            p.append('\n@fbuild.db.caches\ndef f%d(ctx, a):\n    RUNS.append("f%d")\n    return [%s, a]\n' % (
                i, i, self.expr(ret)))
        p.append('''
def build(ctx, s):
    if not isinstance(s, list):
        return s
    if s[0] == 'c':
        return make(ctx, s[1], s[2])
    items = [build(ctx, x) for x in s[1:]]
    return items if s[0] == 'L' else tuple(items) if s[0] == 'T' else dict(enumerate(items))


def do(ctx, name, args):
    args = [build(ctx, x) for x in args]
    if name == 'm':
        return args[0].m(args[1])
    return globals()[name](ctx, *args)
''')
        out['fbproj'] = '\n'.join(p)
        return out

    @staticmethod
    def qual(c):
        return ('In%s.%s' if c['kind'] == 'nested' else '%.0s%s') % (c['name'], c['name'])

    # -- values --

    def show(self, s):
        if not isinstance(s, list):
            return s
        if s[0] == 'c':
            c = self.classes[s[1]]
            if not c['here']:
                return s[2]
            fields = [['x', s[2]]] + ([['y', 7]] if c['y'] else [])
            if c['kind'] == 'tuple':
                fields.insert(0, ['tag', 'c%d' % s[1]])
            return ['I', c['mod'] + '.' + self.qual(c), fields]
        items = [self.show(x) for x in s[1:]]
        if s[0] == 'D':
            return ['D'] + [[i, x] for i, x in enumerate(items)]
        return [s[0]] + items

    def used(self, s):
        if not isinstance(s, list):
            return set()
        if s[0] == 'c':
            return {s[1]}
        return set().union(*[self.used(x) for x in s[1:]])

    def call(self, c):
        """(name, arguments, expected value, classes used), or None."""
        if c[0] == 'm':
            k = self.classes[c[1]]
            if k['kind'] != 'persist' or not k['method'] or not k['here']:
                return None
            return 'm', [['c', c[1], 1], c[2]], ['L', self.show(['c', c[1], 1]), self.show(c[2])], \
                {c[1]} | self.used(c[2])
        return 'f%d' % c[1], [c[2]], ['L', self.show(self.funs[c[1]]), self.show(c[2])], \
            self.used(self.funs[c[1]]) | self.used(c[2])


def run(case, env):
    d = env.scratch()
    try:
        m = Model(case)
        done = {}           # call -> time it was recorded
        old = set()
        touched = hit = False
        for n, sess in enumerate(case['sessions']):
            before = m.time
            for e in sess['edits']:
                m.edit(e)
            if m.time != before and case['engine'] == 'pickle':
                # may have to start from an empty database
                done = {}
            for f in old:
                os.remove(os.path.join(d, f + '.py'))
            files = m.files()
            for f, text in files.items():
                with open(os.path.join(d, f + '.py'), 'w') as out:
                    out.write(text)
            old = set(files)
            plan = [(i, m.call(case['calls'][i])) for i in sess['calls']]
            plan = [(i, p) for i, p in plan if p]
            obs = env.call('jobs_cls', 'session', root=d, engine=case['engine'],
                           calls=[p[:2] for i, p in plan])
            for (i, (name, args, exp, used)), o in zip(plan, obs):
                where = 'session %d call %s%r' % (n, name, args)
                if 'exc' in o:
                    raise Fail('%s: %s; a clean build returns %r' % (where, o['exc'], exp))
                if o['ok'] != exp:
                    raise Fail('%s: returned %r; a clean build returns %r' % (where, o['ok'], exp))
                key = repr((name, exp))
                last = max([m.touched[k] for k in used], default=0)
                if key in done:
                    if o['runs'] and done[key] >= last:
                        raise Fail('%s: ran %r again, though none of its classes changed since' % (
                            where, o['runs']))
                    hit |= not o['runs']
                    touched |= bool(o['runs'])
                elif n and o['runs']:
                    touched = True
                done[key] = m.time
        env.label(case['engine'])
        env.nontrivial(hit and touched)
    finally:
        env.clean(d)
