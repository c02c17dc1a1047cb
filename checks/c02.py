"""C02: nothing is run again without a reason."""
from pbt.core import Part
from pbt.dbgen import focused, histories
from pbt.dbrun import History

ID = 'C02'
LEVEL = 'exploration'
TECHNIQUE = 'stateful property-based testing: executed bodies of generated histories against a validity model'
NOTE = ('Random search over generated projects and histories with shrinking. The model of what must not run '
        'again is conservative: it counts a function as used by another if its text mentions it.')
RULE = ('A case is a generated project and a history of sessions with edits, touches and repeated calls; '
        'non-trivial: some call was answered from the database after an edit, touch or new session.')


def run(case, env):
    d = env.scratch()
    try:
        h = History(case, env, d)
        for i, sess in enumerate(case['sessions']):
            rows = h.session(sess)
            where = 'session %d' % i
            h.check_minimal(rows, where)
            h.check_files(rows, where)
        st = h.stats
        env.label(case['engine'])
        if st['hits']:
            env.label('hit')
        if st['rerun_after_edit']:
            env.label('rerun')
        env.nontrivial(st['hits'] and len(case['sessions']) > 1)
    finally:
        env.clean(d)


FSOPS = ['file', 'touch', 'touch', 'rewrite', 'rewrite', 'rmout', 'rm']
PARTS = [
    Part('history', lambda tier: histories({'fsops': FSOPS, 'funedit_pct': 25}), run, 350, 12000),
    Part('focused', lambda tier: focused(), run, 350, 12000),
    Part('failures', lambda tier: histories({'fsops': FSOPS, 'funedit_pct': 25, 'err': True}), run, 300, 12000),
]
