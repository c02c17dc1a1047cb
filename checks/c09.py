"""C09: map runs every item once and returns in order."""
from hypothesis import strategies as st

from pbt.core import Fail, Part

ID = 'C09'
LEVEL = 'exploration'
TECHNIQUE = ('property-based testing of schedules: generated trees of nested maps with waits, failures and several '
             'callers, checked against their sequential meaning and invariants over the recorded history')
NOTE = ('Random search with shrinking; the interleavings are those of real threads with generated waits and a very short '
        'switch interval, not all of them. Mapping from inside an interruptible section is left out.')
RULE = ('A case is a number of threads and the programs of one or more callers; non-trivial: a map inside a map, '
        'with two or more threads and five or more items.')
ASSUMPTIONS = ['no task maps from inside an interruptible section',
               'tasks do not wait for other tasks but by mapping']
SHARDS = 8

FORMS = ['list', 'list', 'tuple', 'generator', 'iter']
KINDS = ['value', 'error', 'exit', 'stop', 'generator', 'base', 'queue', 'runtime']


class Ids:
    def __init__(self):
        self.n = 0

    def new(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)


@st.composite
def steps(draw, ids, depth, fails, client=False):
    out = []
    for _ in range(draw(st.integers(0 if not client else 1, 3))):
        k = draw(st.integers(0, 9))
        if k <= 1 and not client:
            out.append(['run', draw(st.sampled_from([1, 2, 4]))])
        elif k <= 3:
            inner = []
            if draw(st.integers(0, 3)) == 0:
                inner = [['int', draw(st.integers(0, 2)), []]]
            if fails and draw(st.integers(0, 6)) == 0 and not client:
                inner.append(['raise', draw(st.sampled_from(KINDS))])
            out.append(['int', draw(st.integers(0, 3)), inner])
        elif k == 4 and fails and not client:
            out.append(['raise', draw(st.sampled_from(KINDS))])
        elif k == 5:
            out.append(['flat', draw(st.sampled_from(FORMS)), draw(st.lists(
                st.one_of(st.integers(0, 2), st.sampled_from([None, '', 'a']),
                          st.lists(st.integers(0, 1), max_size=2).map(lambda x: ['L'] + x)), max_size=6))])
        elif depth > 0:
            n = draw(st.sampled_from([0, 1, 2, 2, 3, 4]))
            m = ids.new('m')
            items = [{'id': ids.new('i'), 'steps': draw(steps(ids, depth - 1, fails))} for _ in range(n)]
            out.append([draw(st.sampled_from(['map', 'map', 'try'])), draw(st.sampled_from(FORMS)), items, m])
    return out


@st.composite
def cases(draw):
    ids = Ids()
    fails = draw(st.booleans())
    clients = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        clients.append([{'id': ids.new('c'), 'steps': draw(steps(ids, 3, fails, True))}
                        for _ in range(draw(st.integers(1, 3)))])
    return {'threads': draw(st.sampled_from([1, 2, 2, 3, 4, 6])), 'clients': clients}


class Stop(Exception):
    def __init__(self, who):
        self.who = who


def raises(steps):
    """The possible raisers of the steps, or None if they complete."""
    for s in steps:
        if s[0] == 'raise':
            return True
        if s[0] == 'int' and any(t[0] == 'raise' for t in s[2]):
            return True
        if s[0] == 'map' and map_raises(s):
            return True
    return False


def map_raises(s):
    return any(raises(it['steps']) for it in s[2])


def value(who, steps):
    """(values of the completed steps, set of raisers or None)."""
    vals = []
    for s in steps:
        if s[0] == 'raise' or s[0] == 'int' and any(t[0] == 'raise' for t in s[2]):
            return vals, {who}
        if s[0] == 'flat':
            vals.append(['L'] + [['L', x] for x in s[2]])
        elif s[0] in ('map', 'try'):
            res, who_all = [], set()
            for it in s[2]:
                v, w = value(it['id'], it['steps'])
                if w:
                    who_all |= w
                else:
                    res.append([it['id'], v])
            if who_all and s[0] == 'map':
                return vals, who_all
            vals.append({'caught': who_all} if who_all else res)
    return vals, None


def same(got, want):
    if isinstance(want, dict):
        return isinstance(got, list) and len(got) == 2 and got[0] == 'caught' and got[1] in want['caught']
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(map(same, got, want))
    return type(got) is type(want) and got == want


def collect(steps, must, musts, mays, maps):
    """Which items have to run, which may."""
    for s in steps:
        if s[0] == 'raise' or s[0] == 'int' and any(t[0] == 'raise' for t in s[2]):
            return
        if s[0] in ('map', 'try'):
            failing = map_raises(s)
            maps[s[3]] = [it['id'] for it in s[2]]
            for it in s[2]:
                (musts if must and not failing else mays).add(it['id'])
                collect(it['steps'], must and not failing, musts, mays, maps)
            if failing and s[0] == 'map':
                return


def depth(steps):
    return max([1 + max([depth(it['steps']) for it in s[2]] or [0]) for s in steps if s[0] in ('map', 'try')] or [0])


def run(case, env):
    r = env.call('jobs_sched', 'run', threads=case['threads'], clients=case['clients'], timeout=25)
    if r['trouble']:
        raise Fail('; '.join(r['trouble'][:5]))
    musts, mays, maps = set(), set(), {}
    for prog, out in zip(case['clients'], r['out']):
        if out is None or len(out) != len(prog):
            raise Fail('a caller did not finish: %r' % (out,))
        for it, o in zip(prog, out):
            vals, who = value(it['id'], it['steps'])
            if who:
                env.label('failure')
                if o[0] != 'exc' or o[1] not in who or not same(o[2], vals):
                    raise Fail('%s: %r, expected the exception of one of %s after %r' % (
                        it['id'], o, sorted(who), vals))
            elif o[0] != 'ok' or not same(o[1], vals):
                raise Fail('%s: %r, expected %r' % (it['id'], o, vals))
            collect(it['steps'], True, musts, mays, maps)
    starts = [e[1] for e in r['events'] if e[0] == 'start']
    for i in set(starts):
        if starts.count(i) > 1:
            raise Fail('%s was run %d times' % (i, starts.count(i)))
        if i not in musts and i not in mays:
            raise Fail('%s was run after a failure that comes before it' % i)
    if musts - set(starts):
        raise Fail('%s were not run' % sorted(musts - set(starts)))
    for n, e in enumerate(r['events']):
        if e[0] == 'raised':
            late = [x[1] for x in r['events'][n:] if x[0] == 'start' and x[1] in maps.get(e[1], ())]
            if late:
                raise Fail('%s were started after their map %s had failed' % (late, e[1]))
    env.label('%d threads' % case['threads'], '%d callers' % len(case['clients']))
    d = max([depth(it['steps']) for c in case['clients'] for it in c] or [0])
    env.label('depth %d' % d)
    env.nontrivial(d >= 2 and case['threads'] >= 2 and len(starts) >= 5)


PARTS = [Part('map', lambda tier: cases(), run, 2400, 60000)]
