"""C05: arguments and results survive in the database unchanged."""
import json

from hypothesis import strategies as st

from pbt.core import Fail, Part
from pbt.sigs import calls, signatures, source

ID = 'C05'
LEVEL = 'exploration'
TECHNIQUE = ('stateful property-based testing: generated values, signatures, ways to pass arguments and processes '
             'against a table of recorded calls compared with ==')
NOTE = ('Random search with shrinking. Equality is that of Python, so 1, True and 1.0 are equal arguments; values '
        'that differ from themselves (NaN) are left out, and no one modifies a value after it was passed or returned.')
RULE = ('A case is a set of functions with generated signatures and several sessions of calls; non-trivial: a call in a '
        'later session is answered from the database with a nested value, and another with a different argument is not.')
ASSUMPTIONS = ['arguments and results are not modified after they were passed or returned']

scalars = st.one_of(
    st.none(), st.booleans(), st.integers(-3, 3), st.integers(-2**70, 2**70), st.sampled_from([100, 101, 200, 7]),
    st.floats(allow_nan=False), st.sampled_from(['', 'a', 'a/b', 'b', 'x']), st.text(max_size=4),
    st.sampled_from([0.0, -0.0, 1.0, float('inf')]),
    st.binary(max_size=4).map(lambda b: ['B', b.hex()]),
    st.sampled_from(['', 'a', 'a/b', '/x']).map(lambda s: ['P', s]))

hashables = st.recursive(scalars, lambda c: st.one_of(
    st.lists(c, max_size=3).map(lambda x: ['T'] + x),
    st.lists(c, max_size=3).map(lambda x: ['F'] + x)), max_leaves=3)

attrs = st.sampled_from(['a', 'b', 'x', 'name'])


def containers(c):
    return st.one_of(
        st.lists(c, max_size=3).map(lambda x: ['L'] + x),
        st.lists(c, max_size=3).map(lambda x: ['T'] + x),
        st.lists(st.tuples(hashables, c).map(list), max_size=3).map(lambda x: ['D'] + x),
        st.lists(hashables, max_size=3).map(lambda x: ['S'] + x),
        st.lists(st.tuples(attrs, c).map(list), max_size=3).map(lambda x: ['R'] + x),
        st.lists(c, min_size=0, max_size=1).flatmap(
            lambda a: st.sampled_from(['A', 'B']).map(lambda k: ['O', k, a, {}])),
        st.tuples(c, st.one_of(st.none(), c)).map(lambda a: ['O', 'C', [a[0]], {} if a[1] is None else {'y': a[1]}]),
        st.tuples(st.lists(c, max_size=2), st.dictionaries(attrs, c, max_size=2)).map(
            lambda a: ['O', 'E', a[0], a[1]]))


values = st.recursive(scalars, containers, max_leaves=5)
objects = st.one_of(
    st.tuples(st.sampled_from(['A', 'B', 'C']), values).map(lambda a: ['O', a[0], [a[1]], {}]),
    st.tuples(st.lists(values, max_size=2), st.dictionaries(attrs, values, max_size=2)).map(
        lambda a: ['O', 'E', a[0], a[1]]))


@st.composite
def variant(draw, v):
    """The value changed in one place, or in its type only."""
    if not isinstance(v, list):
        if isinstance(v, (bool, int)) and draw(st.booleans()):
            return draw(st.sampled_from([int(v) + 1, float(v) if abs(v) < 2**50 else 0, bool(v), str(v)]))
        if isinstance(v, str):
            return draw(st.sampled_from([v + 'x', ['P', v] if '\0' not in v else v, ['B', ''], v.upper()]))
        return draw(scalars)
    t = v[0]
    if t in ('L', 'T', 'S', 'F'):
        if draw(st.booleans()) and len(v) > 1 and t in ('L', 'T'):
            i = draw(st.integers(1, len(v) - 1))
            return v[:i] + [draw(variant(v[i]))] + v[i + 1:]
        if t in ('L', 'T'):
            return draw(st.sampled_from([['T'] + v[1:], ['L'] + v[1:], v[:-1] if len(v) > 1 else v,
                                         v + [None], [t] + v[:0:-1], ['L', v]]))
        return draw(st.sampled_from([['S'] + v[1:], ['F'] + v[1:], v[:-1] if len(v) > 1 else v])) \
            if t == 'S' else v
    if t in ('D', 'R'):
        if len(v) > 1 and draw(st.booleans()):
            i = draw(st.integers(1, len(v) - 1))
            return v[:i] + [[v[i][0], draw(variant(v[i][1]))]] + v[i + 1:]
        return draw(st.sampled_from([['D'] + v[1:], v[:-1] if len(v) > 1 else v, v + [['a', None]]]))
    if t == 'O':
        k = draw(st.integers(0, 4))
        if k == 0 and v[1] in 'AB':
            return ['O', 'B' if v[1] == 'A' else 'A', v[2], v[3]]
        if k == 1 and v[1] == 'E':
            return ['O', 'E', v[2], {**v[3], 'a': draw(scalars)}]
        if k == 2 and v[1] == 'E' and v[3]:
            return ['O', 'E', v[2], {k: x for k, x in list(v[3].items())[1:]}]
        if k == 3 and v[1] == 'C':
            return ['O', 'C', v[2], {} if v[3] else {'y': draw(scalars)}]
        if v[2]:
            return ['O', v[1], [draw(variant(v[2][0]))] + v[2][1:], v[3]]
        return v
    return draw(scalars)


@st.composite
def cases(draw):
    funs = [draw(signatures()) for _ in range(draw(st.integers(1, 3)))]
    shapes = [draw(st.sampled_from(['tuple', 'dict', 'record', 'first', 'value'])) for _ in funs]
    results = draw(st.lists(values.filter(lambda v: 'O' not in json.dumps(v)), min_size=1, max_size=3))
    pool = draw(st.lists(values, min_size=1, max_size=3))
    for v in list(pool):
        pool.append(draw(variant(v)))

    def value():
        if draw(st.integers(0, 5)) == 0:
            return draw(values)
        v = draw(st.sampled_from(pool))
        return v

    sessions, menu = [], []
    for s in range(draw(st.integers(2, 4))):
        reqs = []
        for _ in range(draw(st.integers(1, 4))):
            k = draw(st.integers(0, 9))
            if menu and k <= 5:
                r = draw(st.sampled_from(menu))
                if draw(st.booleans()):
                    r = json.loads(json.dumps(r))
                    # the same or almost the same call again, differently put
                    if r[0] == 'fun':
                        r = reput(draw, funs[int(r[1][1:])], r)
                    if draw(st.booleans()):
                        if r[2] and draw(st.booleans()):
                            i = draw(st.integers(0, len(r[2]) - 1))
                            r[2][i] = draw(variant(r[2][i]))
                        elif r[3]:
                            i = draw(st.sampled_from(sorted(r[3])))
                            r[3][i] = draw(variant(r[3][i]))
                        elif r[0] in ('method', 'prop'):
                            r[1] = draw(variant(r[1]))
            elif k == 6:
                r = ['prop', draw(objects), [], {}]
            elif k == 7:
                o = draw(objects)
                r = ['method', o, [value()], {} if draw(st.booleans()) else {'w': value()}]
            elif k == 8:
                r = ['new', draw(objects), [], {}]
            else:
                i = draw(st.integers(0, len(funs) - 1))
                n, kw = draw(calls(funs[i], 100))
                r = ['fun', 'f%d' % i, [value() for _ in range(n)], {k: value() for k in kw}]
            menu.append(r)
            reqs.append(r)
        sessions.append(reqs)
    return {'engine': draw(st.sampled_from(['pickle', 'sqlite'])), 'funs': funs, 'shapes': shapes,
            'results': results, 'sessions': sessions}


def reput(draw, params, r):
    """The same arguments passed in another way."""
    kind, name, pos, kw = r
    plain = [p for p in params if p[1] in ('po', 'pk')]
    if len(pos) > len(plain):
        return r
    # move positional arguments to keywords from the end, or keywords to positions
    pos, kw = list(pos), dict(kw)
    if draw(st.booleans()):
        while pos and plain[len(pos) - 1][1] == 'pk' and plain[len(pos) - 1][0] not in kw and draw(st.booleans()):
            v = pos.pop()
            kw[plain[len(pos)][0]] = v
    else:
        while len(pos) < len(plain) and plain[len(pos)][1] == 'pk' and plain[len(pos)][0] in kw:
            pos.append(kw.pop(plain[len(pos)][0]))
    # or spell out a default
    for p in params:
        if p[1] == 'ko' and p[2] is not None and p[0] not in kw and draw(st.booleans()):
            kw[p[0]] = p[2]
    return [kind, name, pos, kw]


def text(funs, shapes, results):
    out = ['import json\nfrom codec import dec\n']
    for i, (params, shape) in enumerate(zip(funs, shapes)):
        names = [p[0] for p in params]
        body = {
            'tuple': '(n, %s)' % ''.join(x + ', ' for x in names),
            'dict': '{"n": n, %s}' % ', '.join('%r: %s' % (x, x) for x in names),
            'record': 'Record(n=n, a=[%s])' % ', '.join(names),
            'first': '[n, %s]' % (names[0] if names else None),
            'value': '[n, dec(json.loads(%r))]' % json.dumps(results[i % len(results)]),
        }[shape]
        out.append('@fbuild.db.caches\ndef %s:\n    n = ran("f%d")\n    return %s\n' % (
            source(params, 'f%d' % i, pre=['ctx']), i, body))
    return '\n'.join(out)


# --- the model -----------------------------------------------------------------

class Obj:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def __eq__(self, other):
        return isinstance(other, Obj) and self.cls == other.cls and self.attrs == other.attrs

    __hash__ = None


class Pa(str):
    pass


class Rec(dict):
    pass


def enc(v):
    """What the worker's encoding of the value is."""
    t = type(v)
    if t is Obj:
        return ['O', v.cls] + sorted(([k, enc(x)] for k, x in v.attrs.items()), key=repr)
    if t is list:
        return ['L'] + [enc(x) for x in v]
    if t is tuple:
        return ['T'] + [enc(x) for x in v]
    if t is dict or t is Rec:
        return ['R' if t is Rec else 'D'] + sorted(([enc(k), enc(x)] for k, x in v.items()), key=repr)
    if t is set or t is frozenset:
        return ['S' if t is set else 'F'] + sorted((enc(x) for x in v), key=repr)
    if t is bytes:
        return ['B', v.hex()]
    if t is Pa:
        return ['P', str(v)]
    return v


def strict(v):
    """The encoding as text, where 1, 1.0 and True differ."""
    return json.dumps(v, sort_keys=True)


class Model:
    def __init__(self, case):
        self.case = case
        self.table = {}
        self.runs = []
        ns = {}
        for i, params in enumerate(case['funs']):
            exec('def %s:\n    return dict(locals())\n' % source(params, 'f%d' % i), ns)
        self.ns = ns
        self.later_hit = self.miss = self.nested = False
        self.last = {}
        self.session = 0

    def value(self, v):
        if not isinstance(v, list):
            return v
        t = v[0]
        if t == 'O':
            # as Python does: positional ones first
            args = tuple(self.value(x) for x in v[2])
            kw = {k: self.value(x) for k, x in v[3].items()}
            return self.construct(v[1], args, kw)
        if t == 'L':
            return [self.value(x) for x in v[1:]]
        if t == 'T':
            return tuple(self.value(x) for x in v[1:])
        if t == 'D' or t == 'R':
            d = {}
            for k, x in v[1:]:
                k = self.value(k)
                d[k] = self.value(x)
            return Rec(d) if t == 'R' else d
        if t == 'S':
            return {self.value(x) for x in v[1:]}
        if t == 'F':
            return frozenset(self.value(x) for x in v[1:])
        if t == 'B':
            return bytes.fromhex(v[1])
        if t == 'P':
            return Pa(v[1])
        raise ValueError(v)

    def find(self, name, bound):
        for b, res, s in self.table.get(name, ()):
            if b == bound:
                if s < self.session:
                    self.later_hit = True
                return res
        if self.table.get(name):
            self.miss = True
        return None

    def store(self, name, bound, res):
        self.table.setdefault(name, []).append((bound, res, self.session))

    def construct(self, cls, args, kw):
        bound = (args, kw)
        o = self.find(cls, bound)
        if o is None:
            self.runs.append(cls)
            if cls == 'E':
                o = Obj('E', {'items': args, **kw})
            else:
                o = Obj(cls, {'x': args[0] if args else kw.get('x')})
                if cls == 'C' and kw.get('y') is not None:
                    o.attrs['y'] = kw['y']
            self.store(cls, bound, o)
        return o


def check(m, r, o, where, case):
    kind, what, pos, kw = r
    m.runs = []
    obj = m.value(what) if kind in ('method', 'prop') else None
    args = tuple(m.value(x) for x in pos)
    kwargs = {k: m.value(x) for k, x in kw.items()}
    if kind == 'new':
        want = m.value(what)
        serial = None
    else:
        if kind == 'fun':
            name = what
            bound = m.ns[what](*args, **kwargs)
        elif kind == 'prop':
            name = obj.cls + '.p'
            bound = {'self': obj}
        elif obj.cls == 'E':
            name = 'E.m'
            kwargs = dict(kwargs)
            bound = {'self': obj, 'rest': args, 'w': kwargs.pop('w', 7)}
            bound['opts'] = kwargs
        else:
            name = obj.cls + '.m'
            w = args[1] if len(args) > 1 else kwargs.get('w', 7)
            bound = {'self': obj, 'v': args[0] if args else kwargs['v'], 'w': w}
        want = m.find(name, bound)
        if want is None:
            m.runs.append(name)
            n = Serial()
            if kind == 'prop':
                want = (n, obj) if obj.cls != 'E' else Rec(serial=n, me=obj)
            elif kind == 'method':
                want = [n, obj, bound['v'], bound['w']] if obj.cls != 'E' else {
                    'serial': n, 'self': obj, 'rest': bound['rest'], 'w': bound['w'], 'opts': bound['opts']}
            else:
                i = int(what[1:])
                names = [p[0] for p in case['funs'][i]]
                shape = case['shapes'][i]
                if shape == 'tuple':
                    want = (n,) + tuple(bound[x] for x in names)
                elif shape == 'dict':
                    want = {'n': n, **{x: bound[x] for x in names}}
                elif shape == 'record':
                    want = Rec(n=n, a=[bound[x] for x in names])
                elif shape == 'first':
                    want = [n, bound[names[0]] if names else None]
                else:
                    want = [n, m.value(case['results'][i % len(case['results'])])]
            m.store(name, bound, want)
    if 'exc' in o:
        raise Fail('%s: %s' % (where, o['exc'][-1500:]))
    if o['runs'] != m.runs:
        raise Fail('%s: ran %s, expected %s' % (where, o['runs'], m.runs))
    we = strict(enc_serial(want, o['ok']))
    if strict(o['ok']) != we:
        raise Fail('%s: %s, expected %s' % (where, strict(o['ok'])[:1500], we[:1500]))
    if not o['ctx']:
        raise Fail('%s: a persistent object inside has another context' % where)


class Serial:
    """A number known when the result of the run is first seen."""
    n = None


def enc_serial(want, got):
    """Fill in the serial number of a new result, and encode."""
    for x in (want if isinstance(want, (list, tuple)) else want.values() if isinstance(want, dict) else ()):
        if isinstance(x, Serial) and x.n is None:
            x.n = find_serial(want, got)
    return conv(enc(want))


def find_serial(want, got):
    if isinstance(want, dict):
        key = 'serial' if 'serial' in want else 'n'
        for kv in got[1:] if isinstance(got, list) else ():
            if isinstance(kv, list) and kv and kv[0] == key:
                return kv[1]
        return None
    return got[1] if isinstance(got, list) and len(got) > 1 else None


def conv(e):
    if isinstance(e, Serial):
        return e.n
    if isinstance(e, list):
        e = [conv(x) for x in e]
        if e and e[0] in ('D', 'R'):
            e = e[:1] + sorted(e[1:], key=repr)
    return e


def run(case, env):
    d = env.scratch()
    try:
        m = Model(case)
        src = text(case['funs'], case['shapes'], case['results'])
        for n, reqs in enumerate(case['sessions']):
            m.session = n
            obs = env.call('jobs_val', 'session', root=d, engine=case['engine'], base=n * 1000, src=src,
                           requests=reqs)
            for j, (r, o) in enumerate(zip(reqs, obs)):
                check(m, r, o, 'session %d request %d %s' % (n, j, r), case)
                env.label(r[0])
                if r[2] and any(isinstance(x, list) and len(x) > 1 and x[0] != 'P' for x in r[2]):
                    m.nested = True
        env.label(case['engine'])
        if m.later_hit:
            env.label('hit')
        env.nontrivial(m.later_hit and m.miss and m.nested)
    finally:
        env.clean(d)


PARTS = [Part('values', lambda tier: cases(), run, 1500, 40000)]
