"""C07: being killed at any moment never corrupts the next build."""
import copy
import os
import shutil

from hypothesis import strategies as st

from pbt import worker as W
from pbt.core import Fail, Part
from pbt.dbgen import histories
from pbt.dbrun import History

ID = 'C07'
LEVEL = 'exploration'
TECHNIQUE = ('fault injection driven by property-based testing: generated projects and histories, killed at chosen calls '
             'that change a file (or in the middle of a write), against a from-scratch evaluator and a validity model')
NOTE = ('A preloaded library counts the calls that change files below the project and sends SIGKILL at the chosen one; '
        'of each history the calls on the state files and a sample of the others are chosen. Loss of power is not '
        'covered. Output files whose record is still valid are replaced in one step, and sources are not changed back after a kill.')
RULE = ('A case is a project, normal sessions, edits, a session to be killed and the points to kill it at; non-trivial: '
        'sessions before it were recorded, and it was killed after some body had run or while the state was saved.')
ASSUMPTIONS = ['SIGKILL, not loss of power: what was written is there in the order it was written',
               'a function that runs again because its output is missing replaces it in one step',
               'sources are not changed back to what an earlier recorded call saw after a kill']


@st.composite
def cases(draw):
    case = draw(histories({'fsteps': False}, sessions=(1, 4)))
    n = draw(st.integers(4, 8))
    case['points'] = [[draw(st.sampled_from(['state', 'state', 'any'])), draw(st.integers(0, 999)),
                       draw(st.integers(0, 1))] for _ in range(n)]
    case['force'] = draw(st.integers(0, 14)) == 0
    case['after'] = [draw(st.sampled_from([
        ['fs', ['file', 'src/s0.txt', 'Z%d' % i, 'now']], ['fs', ['file', 'src/h0.txt', 'Z%d' % i, 'past']],
        ['fs', ['touch', 'src/s1.txt', 'now']], ['fs', ['rewrite', 'src/s0.txt', 'past']],
        ['fs', ['rmout', i]]])) for i in range(draw(st.sampled_from([0, 0, 1, 2])))]
    return case


class Quiet(History):
    """A history whose edits can be held back and repeated."""
    held = None

    def apply_real(self, op):
        if self.held is None:
            super().apply_real(op)
        else:
            self.held.append(op)

    def replay(self, ops):
        for op in ops:
            History.apply_real(self, op)


def pick(ops, where, r):
    """The index of a call to be killed at."""
    if where == 'state':
        state = [i for i, o in enumerate(ops) if 'fbuild-state' in o[2]]
        if state:
            return state[r % len(state)]
    return r * len(ops) // 1000 if ops else 0


def run(case, env):
    d = env.scratch()
    root, keep, side = (os.path.join(d, x) for x in ('p', 'keep', 'side'))
    os.mkdir(root)
    os.mkdir(side)
    worker = env.preloaded()
    try:
        h = Quiet(case, env, root)
        for i, sess in enumerate(case['sessions'][:-1]):
            rows = h.session(sess)
            h.check_minimal(rows, '', check=False)
        last = case['sessions'][-1]
        plan, steps = h.plan(last)
        shutil.copytree(root, keep, symlinks=True)
        recs0 = dict(h.recs)
        h.held = []
        after = {'edits': case['after'], 'steps': last['steps']}
        plan2, steps2 = h.plan(after)
        ops_after, h.held = h.held, None
        extra = ['--configure'] if case['force'] else []
        atomic = any(e[0] == 'fs' and e[1][0] == 'rmout' for s in case['sessions'] for e in s['edits'])

        def killed(at, mode):
            restore(keep, root)
            for f in ('ops', 'events'):
                if os.path.exists(os.path.join(side, f)):
                    os.remove(os.path.join(side, f))
            try:
                worker.call('jobs_kill', 'session', root=root, engine=h.engine, steps=steps, side=side,
                            at=at, mode=mode, extra=extra, atomic=atomic)
                return None
            except W.Died as e:
                if e.status != 9:
                    raise
                return e
            finally:
                h.ops = lines(side, 'ops')
                h.events = lines(side, 'events')

        killed(-1, 0)
        ops = h.ops
        env.label('about %d0 calls' % (len(ops) // 10))
        done = set()
        for where, r, mode in case['points']:
            at = pick(ops, where, r)
            if (at, mode) in done:
                continue
            done.add((at, mode))
            k = killed(at, mode)
            label = 'killed at call %d of %d (%s %s)' % (
                at, len(ops), *(h.ops[-1][::2] if h.ops else ('', '')))
            if k is None:
                label = 'not killed'
            label = label.replace(root + '/', '')
            if k is not None and ('fbuild-state' in h.ops[-1][2] or h.events):
                env.nontrivial(bool(recs0))
            env.label('at ' + kind(h.ops[-1], root) if k else 'not killed')
            h.replay(ops_after)
            try:
                obs = env.call('jobs_db', 'session', root=root, engine=h.engine, steps=steps2)
            except (W.JobError, W.Died) as e:
                raise Fail('%s: the next build fails: %s' % (label, str(e)[-1500:]))
            rows = list(zip(last['steps'], plan2, obs))
            h.check_results(rows, label)
            h.check_outputs(rows, label)
            h.recs = dict(recs0)
            if h.engine == 'sqlite' and k is not None:
                completed(h, plan, h.events)
            h.check_minimal(rows, label, check=not case['force'])
        env.label(h.engine)
    finally:
        env.clean(d)


def completed(h, plan, events):
    """Count the calls as recorded that completed before the kill."""
    for i, (ev, step, k) in enumerate(events):
        # it is recorded once its caller goes on
        if ev == 'D' and i + 1 < len(events):
            info = plan[int(step)]['calls'].get(k)
            if info is not None:
                info = dict(info, closure=h.closure.get(info['fun'], set()))
                h.recs[k] = (plan[int(step)]['t'], info, None)


def kind(op, root):
    name = op[2].replace(root + '/', '')
    if 'fbuild-state' in name:
        return '%s %s' % (op[0], name.split('/')[-1])
    return op[0]


def lines(side, name):
    p = os.path.join(side, name)
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x.split('\t') for x in f.read().splitlines()]


def restore(keep, root):
    shutil.rmtree(root)
    shutil.copytree(keep, root, symlinks=True)


PARTS = [Part('kill', lambda tier: cases(), run, 400, 12000)]
