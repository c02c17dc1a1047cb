"""C08: a parallel build gives what a serial build gives."""
import os

from hypothesis import strategies as st

from pbt.core import Fail, Part
from pbt.dbgen import histories
from pbt.dbrun import History

ID = 'C08'
LEVEL = 'exploration'
TECHNIQUE = ('differential stateful property-based testing: generated projects and histories built serially and with '
             'several threads under generated schedules of switch points, against each other and a from-scratch evaluator')
NOTE = ('Random search with shrinking. Tasks switch at the generated points of their bodies, where maps wait, and nowhere '
        'else; which of the waiting tasks goes on is generated. Sets of executed bodies are compared, as calls with the '
        'same arguments may run at the same time.')
RULE = ('A case is a project with maps, a history of sessions, thread counts and schedules; non-trivial: two or more '
        'bodies were under way at the same time, and another one than the first waiting task went on.')
ASSUMPTIONS = ['two calls that differ in their arguments write different files',
               'a task gives up control only inside interruptible sections and where it maps']


@st.composite
def cases(draw, feat):
    case = draw(histories(feat, lo=2, hi=4, sessions=(2, 3), max_steps=2))
    n = len(case['sessions'])
    case['par'] = [{'jobs': draw(st.sampled_from([2, 3, 4, 8])),
                    'choices': draw(st.lists(st.integers(0, 4), min_size=6, max_size=24))} for _ in range(n)]
    # the last one shows what the others left behind
    if n > 1 and draw(st.booleans()):
        case['par'][-1] = {'jobs': 1, 'choices': []}
    return case


def bodies(o):
    return {k for ev, k in o['ev'] if ev == 'S'}


def run(case, env):
    same = case['same']
    d = env.scratch()
    try:
        os.mkdir(d + '/serial')
        os.mkdir(d + '/par')
        s = History(case, env, d + '/serial')
        p = History(case, env, d + '/par')
        most = switches = 0
        for i, (sess, par) in enumerate(zip(case['sessions'], case['par'])):
            where = 'session %d' % i
            if same:
                srows = s.session(sess)
                s.check_results(srows, where + ', serial')
            prows = p.session(sess, jobs=par['jobs'], choices=par['choices'])
            where += ', %d threads' % par['jobs']
            p.check_results(prows, where)
            p.check_outputs(prows, where)
            # where tasks fail, it depends on the schedule which others are run
            same = same and not any('exc' in o for _, _, o in srows + prows)
            if same:
                for j, ((step, _, a), (_, _, b)) in enumerate(zip(srows, prows)):
                    if bodies(a) != bodies(b):
                        raise Fail('%s step %d (%s): only ran in a serial build: %r; only ran in this one: %r' % (
                            where, j, step, sorted(bodies(a) - bodies(b)), sorted(bodies(b) - bodies(a))))
                    for what in 'srcs', 'dsts':
                        if a.get(what) != b.get(what):
                            raise Fail('%s step %d (%s): reports %s %r; a serial build %r' % (
                                where, j, step, what, b.get(what), a.get(what)))
            most = max(most, prows[-1][2]['most'])
            switches += prows[-1][2]['switches']
        env.label(case['engine'], 'overlap' if most > 1 else 'no-overlap')
        if switches:
            env.label('switched')
        env.nontrivial(most > 1 and switches)
    finally:
        env.clean(d)


FEAT = {'points': True, 'topmap_pct': 85, 'topmap_min': 2, 'topmap_max': 4, 'dup': True, 'map_weight': 3, 'repeat_maps': True,
        'fsteps': False, 'full_pct': 80}


def with_(same, feat):
    return lambda tier: cases(feat).map(lambda c: dict(c, same=same))


PARTS = [
    Part('same', with_(True, {**FEAT, 'fsops': ['file', 'file', 'file', 'touch', 'rewrite']}), run, 320, 12000),
    Part('failures', with_(False, {**FEAT, 'err': True, 'map': False}), run, 160, 6000),
]
