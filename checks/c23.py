"""C23: remote calls to the database thread are answered exactly once."""
from hypothesis import strategies as st

from pbt.core import Fail, Part

ID = 'C23'
LEVEL = 'exploration'
TECHNIQUE = ('property-based testing of schedules and injected faults: generated clients that call, fail, are interrupted and '
             'end the service, against invariants of the history')
NOTE = ('Random search with shrinking; the interleavings are those of real threads with generated delays and a very short '
        'switch interval.')
RULE = ('A case is the programs of the clients; non-trivial: two or more threads, three or more executed calls, and one call '
        'that fails, is interrupted or is made while the service is being ended.')
ASSUMPTIONS = ['interrupts hit a thread that waits for an answer',
               'a function that is served neither calls the service nor ends it',
               'a function that raises something that is not an Exception ends the service']
VALUES = ['none', 'false', 'exception', 'exit', 'class', 'same', 'list', 'ni', 'refused']
ERRORS = ['value', 'stop', 'queue', 'assert', 'own']
FATAL = ['system', 'generator', 'base']


class Gen:
    def __init__(self, draw):
        self.draw, self.n = draw, 0

    def pick(self, *a):
        return self.draw(st.sampled_from(a))

    def call(self, fatal=False, interrupt=False):
        self.n += 1
        s = {}
        k = self.draw(st.integers(0, 19))
        if k == 0 and fatal:
            s['raise'] = self.pick(*FATAL)
        elif k <= 5:
            s['raise'] = self.pick(*ERRORS)
        else:
            s['value'] = self.pick(*VALUES)
        if self.pick(False, True):
            s['delay'] = self.draw(st.integers(0, 4))
        if interrupt:
            s['interrupt'] = True
        return ['call', 'c%d' % self.n, s]

    def join(self):
        self.n += 1
        return ['join', 'j%d' % self.n, self.pick([], [], [None], [0.001])]

    def steps(self, main, ends, fatal):
        out = []
        for _ in range(self.draw(st.integers(0, 6))):
            k = self.draw(st.integers(0, 9))
            if k <= 6:
                out.append(self.call(fatal))
            elif k == 7:
                out.append(['pause', self.draw(st.integers(0, 5))])
            elif k == 8 and ends:
                out.append(self.join())
        return out


@st.composite
def clients(draw):
    g = Gen(draw)
    ends, fatal, interrupt = g.pick(False, True), g.pick(False, False, True), g.pick(False, False, True)
    cs = [g.steps(i == 0, ends, fatal) for i in range(g.pick(1, 2, 3, 5))]
    if interrupt:
        cs[0].insert(draw(st.integers(0, len(cs[0]))), g.call(False, True))
        cs[0].append(g.call())
    return {'daemon': g.pick(True, False), 'clients': cs, 'early': g.pick([], [], [g.call()], [g.join()]),
            'late': [g.join(), g.call()] + g.pick([], [g.join(), g.call()])}


@st.composite
def ending(draw):
    g = Gen(draw)
    fatal = g.pick(False, False, True)
    return {'first': {'raise': g.pick(*FATAL)} if fatal else g.call()[2], 'waiting': [[g.call()] for _ in range(g.pick(0, 1, 2, 4))],
            'joins': [g.pick([], [], [None], [0.001]) for _ in range(g.pick(1, 1, 2, 3))],
            'late': [[g.call()] for _ in range(g.pick(0, 1, 2))], 'pause': g.pick(0, 1, 5), 'pause2': g.pick(0, 1, 5)}


def specs(case):
    out = {'very last': {'value': 'none'}, 'first': case.get('first')}
    for ss in case.get('clients', []) + case.get('waiting', []) + [s if s and isinstance(s[0], list) else [s] for s in case.get('late', [])] + [case.get('early', [])]:
        for s in ss:
            if s and s[0] == 'call':
                out[s[1]] = s[2]
    return out


def judge(case, out):
    log = out['log']
    if out['trouble']:
        raise Fail('; '.join(out['trouble']))
    spec = specs(case)
    at = {}
    for n, e in enumerate(log):
        if e[0] not in ('ending', 'open', 'all ended'):
            at.setdefault((e[0], e[1]), []).append(n)
    end = len(log)
    # the moment from which calls may be refused, and that from which they have to be
    fatal = [n for n, e in enumerate(log) if e[0] == 'run' and spec[e[1]].get('raise') in FATAL]
    joining = [n for n, e in enumerate(log) if e[0] == 'joining']
    early = {s[1] for s in case.get('early', [])}
    may = min(fatal + [n for n in joining if log[n][1] not in early] + [end])
    must = end
    for n, e in enumerate(log):
        if e[0] == 'joined' and e[1] not in early and not e[2]:
            must = min(must, n)
    made = set(next((e[1] for e in log if e[0] == 'ending'), []))
    for me in {e[1] for e in log if e[0] == 'call'}:
        s = spec[me]
        calls, runs, ends = at[('call', me)], at.get(('run', me), []), at.get(('end', me), [])
        if len(ends) != 1:
            raise Fail('the call %s returned %d times' % (me, len(ends)))
        if len(runs) > 1:
            raise Fail('%s was executed %d times' % (me, len(runs)))
        o = log[ends[0]][2]
        if me in early:
            if o != 'refused' or runs:
                raise Fail('a call before the start was not refused: %s' % o)
        elif o == 'refused':
            if runs:
                raise Fail('%s was executed and refused' % me)
            if ends[0] < may:
                raise Fail('%s was refused before the service was ended' % me)
            if me in made and not fatal:
                raise Fail('%s was waiting when the service was ended, and was refused' % me)
        elif o == 'interrupted' and s.get('interrupt'):
            pass
        else:
            if o != ('error' if 'raise' in s else 'value'):
                raise Fail('%s got: %s' % (me, o))
            if not runs or not calls[0] < runs[0] < at[('done', me)][0] < ends[0]:
                raise Fail('%s returned before it was executed' % me)
            if calls[0] > must:
                raise Fail('%s was executed after the service ended' % me)
        if runs and runs[0] > must:
            raise Fail('%s was executed after the service was ended' % me)
    for n, e in enumerate(log):
        # who waited for the end, without a limit, can rely on it
        if e[0] == 'joined' and e[1] not in early and e[2] and TIMES.get(e[1]) != [0.001]:
            raise Fail('%s returned before the service ended' % e[1])
    # a client's calls are executed in order
    for ss in case.get('clients', []):
        mine = [s[1] for s in ss if s[0] == 'call']
        ran = [e[1] for e in log if e[0] == 'run' and e[1] in mine]
        if ran != [m for m in mine if m in ran]:
            raise Fail('the calls %s were executed in the order %s' % (mine, ran))
    waited = next((e[1] for e in log if e[0] == 'ending'), [])
    ran = [e[1] for e in log if e[0] == 'run' and e[1] in waited]
    if ran != [m for m in waited if m in ran]:
        raise Fail('calls made in the order %s were executed in the order %s' % (waited, ran))


TIMES = {}


def note(case, out, env):
    log = out['log']
    spec = specs(case)
    ran = [e[1] for e in log if e[0] == 'run']
    odd = any('raise' in spec[m] or spec[m].get('interrupt') for m in ran) or any(
        e[0] == 'end' and e[2] == 'refused' for e in log)
    env.nontrivial(len(ran) >= 3 and odd and len(case.get('clients', [1, 2])) > 1)
    env.label('%d refused' % sum(e[0] == 'end' and e[2] == 'refused' for e in log))


def joins(case):
    TIMES.clear()
    for ss in case.get('clients', []) + [case['late']]:
        for s in ss:
            if s[0] == 'join':
                TIMES[s[1]] = s[2]


def run_clients(case, env):
    joins(case)
    out = env.call('jobs_rpc', 'clients', case=case, timeout=20)
    judge(case, out)
    note(case, out, env)


def run_ending(case, env):
    TIMES.clear()
    TIMES.update({'j%d' % n: s for n, s in enumerate(case['joins'])})
    out = env.call('jobs_rpc', 'ending', case=case, timeout=20)
    judge(case, out)
    note(case, out, env)


PARTS = [Part('clients', lambda tier: clients(), run_clients, 3000, 60000),
         Part('ending', lambda tier: ending(), run_ending, 1500, 30000)]
