"""C06: a failing call leaves no trace but what completed."""
from hypothesis import strategies as st

from pbt.core import Fail, Part
from pbt.dbmodel import enc, key, short

ID = 'C06'
LEVEL = 'exploration'
TECHNIQUE = 'stateful property-based testing with injected failures: generated call trees against a model of what completed'
NOTE = ('Random search over call trees, failing positions, kinds of exceptions and requests with shrinking. '
        'The failures are switched on from outside, so a failing call and its repetition have the same inputs. '
        'Calls that caught a failure may run again (the failing function has no record).')
RULE = ('A case is a tree of nested, caught and mapped cached calls and a series of sessions with failing '
        'positions; non-trivial: a call failed and later completed, and a call recorded before or inside a '
        'failing one was answered from the database afterwards.')

KINDS = ['build', 'error', 'exec', 'key', 'os', 'stop', 'assert', 'odd', 'exit', 'generator', 'base']


@st.composite
def cases(draw, command=False):
    def pick(seq):
        return draw(st.sampled_from(list(seq)))

    n = draw(st.integers(2, 6))
    program = {}
    for i in range(n):
        body = []
        for _ in range(draw(st.integers(0, 3)) if i < n - 1 else 0):
            mode = pick(['plain', 'plain', 'try', 'try', 'map', 'trymap'])
            calls = [['n%d' % draw(st.integers(i + 1, n - 1)), pick(['x', 'x', 1, 2])]
                     for _ in range(draw(st.integers(1, 3)) if 'map' in mode else 1)]
            body.append([mode, calls])
        program['n%d' % i] = body
    sessions = []
    menu = []

    def request():
        if pick([0, 0, 0, 1]):
            return ['map', [['n%d' % draw(st.integers(0, n - 1)), draw(st.integers(1, 2))]
                            for _ in range(draw(st.integers(1, 3)))]]
        return ['call', ['n%d' % draw(st.integers(0, n - 1)), draw(st.integers(1, 2))]]

    for s in range(draw(st.integers(2, 5))):
        fail = {}
        for _ in range(draw(st.integers(0, 3))):
            i = draw(st.integers(0, n - 1))
            fail['n%d:%d' % (i, draw(st.integers(1, 2)))] = [
                draw(st.integers(0, len(program['n%d' % i]))),
                pick(KINDS[:8] if command else KINDS)]
        reqs = []
        for _ in range(draw(st.integers(1, 4))):
            if menu and pick([0, 1, 1]):
                reqs.append(pick(menu))
            else:
                reqs.append(request())
                menu.append(reqs[-1])
        sessions.append([fail, reqs])
    return {'engine': pick(['pickle', 'sqlite']), 'program': program, 'sessions': sessions}


class Raised(Exception):
    def __init__(self, node):
        self.node = node


class Model:
    def __init__(self, program):
        self.program = program
        self.recs = {}      # shown key -> value
        self.funs = {}      # function with a record -> functions it used
        self.failed = set()
        self.stats = {'failed': 0, 'recovered': 0, 'hit': 0, 'hit_after_failure': 0}

    def dirty(self, f):
        """Whether a record of the function may be given up: it used one that has none."""
        seen, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g not in seen:
                seen.add(g)
                if g not in self.funs:
                    return True
                todo.extend(self.funs[g])
        return False

    def delete_users(self, f):
        gone, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g not in gone:
                gone.add(g)
                todo.extend(h for h, u in self.funs.items() if g in u)
        for g in gone:
            self.funs.pop(g, None)
            # kept only to know what would be returned if they are still there
            for k in [k for k in self.recs if k.startswith(g + '[')]:
                self.maybe.add(k)

    maybe = set()

    def call(self, name, x, obs, where):
        k = key(name, {'x': x})
        if obs and obs[0] == k:
            obs.pop(0)
            if k in self.recs and k not in self.maybe and not self.dirty(name):
                raise Fail('%s: %s(%d) ran again, though it had completed and only others failed' % (
                    where, name, x))
            if name in self.funs and self.dirty(name):
                self.delete_users(name)
            self.recs.pop(k, None)
            self.maybe.discard(k)
            try:
                v, used = self.body(name, x, k, obs, where)
            except Raised:
                self.failed.add(k)
                self.stats['failed'] += 1
                raise
            self.recs[k] = v
            if k in self.failed:
                self.stats['recovered'] += 1
            self.funs.setdefault(name, set()).update(used)
            return v
        if k not in self.recs:
            raise Fail('%s: %s(%d) was not run although it never completed%s' % (
                where, name, x, '; instead %s' % obs[0] if obs else ''))
        self.stats['hit'] += 1
        if self.stats['failed']:
            self.stats['hit_after_failure'] += 1
        return self.recs[k]

    def map(self, calls, obs, where):
        vals = [None] * len(calls)
        left = list(range(len(calls)))
        used = set()
        while True:
            for i in left:
                if obs and obs[0] == key(calls[i][0], {'x': calls[i][1]}):
                    break
            else:
                break
            left.remove(i)
            used.add(calls[i][0])
            vals[i] = self.call(calls[i][0], calls[i][1], obs, where)
        for i in left:
            used.add(calls[i][0])
            vals[i] = self.call(calls[i][0], calls[i][1], obs, where)
        return vals, used

    def body(self, name, x, k, obs, where):
        node = '%s:%d' % (name, x)
        at = self.fail.get(node, [-1])[0]
        items = [k]
        used = set()
        body = self.program[name]
        for i, (mode, calls) in enumerate(body):
            if at == i:
                raise Raised(node)
            calls = [[c, x if a == 'x' else a] for c, a in calls]
            try:
                if 'map' in mode:
                    used.update(c for c, a in calls)
                    v, u = self.map(calls, obs, where)
                    items.append(repr(enc(v)))
                else:
                    for c, a in calls:
                        used.add(c)
                        items.append(repr(enc(self.call(c, a, obs, where))))
            except Raised as e:
                if 'try' not in mode:
                    raise
                items.append(repr('caught ' + e.node))
        if at >= len(body):
            raise Raised(node)
        return short('|'.join(items)), used

    def request(self, r, obs, where):
        try:
            if r[0] == 'call':
                return {'ok': self.call(r[1][0], r[1][1], obs, where)}
            return {'ok': ['L'] + self.map(r[1], obs, where)[0]}
        except Raised as e:
            return {'exc': e.node}


def new_model(case):
    m = Model(case['program'])
    m.maybe = set()
    return m


def finish(case, env, m):
    env.label(case['engine'])
    for k, v in m.stats.items():
        if v:
            env.label(k)
    env.nontrivial(m.stats['recovered'] and m.stats['hit_after_failure'])


def check(m, r, o, where):
    started = list(o['started'])
    want = m.request(r, started, where)
    if started:
        raise Fail('%s: ran %s without being asked to' % (where, started))
    if 'ok' in want:
        got = o.get('ok')
        if isinstance(got, list):
            got = ['L'] + got
        if 'ok' not in o or got != want['ok']:
            raise Fail('%s: %s; expected the value %r' % (where, o, want['ok']))
    elif o.get('exc') != want['exc']:
        raise Fail('%s: %s; expected the failure of %s' % (where, o, want['exc']))


def run(case, env):
    d = env.scratch()
    try:
        m = new_model(case)
        for n, (fail, reqs) in enumerate(case['sessions']):
            m.fail = fail
            obs = env.call('jobs_tree', 'session', root=d, engine=case['engine'], timeout=30,
                           program=case['program'], fail=fail, requests=reqs)
            for j, (r, o) in enumerate(zip(reqs, obs)):
                check(m, r, o, 'session %d request %d %s failing %s' % (n, j, r, sorted(fail)))
        finish(case, env, m)
    finally:
        env.clean(d)


def run_command(case, env):
    d = env.scratch()
    try:
        m = new_model(case)
        for n, (fail, reqs) in enumerate(case['sessions']):
            m.fail = fail
            res = env.call('jobs_tree', 'command', root=d, engine=case['engine'], timeout=30,
                           program=case['program'], fail=fail, requests=reqs)
            failed = False
            for j, o in enumerate(res['seen']):
                where = 'command %d request %d %s failing %s' % (n, j, reqs[j], sorted(fail))
                started = list(o['started'])
                want = m.request(reqs[j], started, where)
                if started:
                    raise Fail('%s: ran %s without being asked to' % (where, started))
                if 'ok' in want:
                    got = ['L'] + o['ok'] if isinstance(o.get('ok'), list) else o.get('ok')
                    if got != want['ok']:
                        raise Fail('%s: %s; expected the value %r' % (where, o, want['ok']))
                else:
                    failed = True
                    if 'ok' in o:
                        raise Fail('%s: returned %r; expected the failure of %s' % (
                            where, o['ok'], want['exc']))
                    if j != len(res['seen']) - 1:
                        raise Fail('%s: the build went on after a failure' % where)
            if not failed and len(res['seen']) != len(reqs):
                raise Fail('command %d: the build stopped after %d of %d requests: %s' % (
                    n, len(res['seen']), len(reqs), res['error'][-2000:]))
            if bool(res['status']) != failed:
                raise Fail('command %d: exit status %r; a request %s' % (
                    n, res['status'], 'failed' if failed else 'did not fail'))
            env.label('status %d' % bool(res['status']))
        finish(case, env, m)
    finally:
        env.clean(d)


PARTS = [
    Part('calls', lambda tier: cases(), run, 900, 20000),
    Part('command', lambda tier: cases(True), run_command, 300, 8000),
]
