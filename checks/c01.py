"""C01: incremental builds give what a from-scratch build gives."""
from pbt import clsgen
from pbt.core import Part
from pbt.dbgen import focused, histories
from pbt.dbrun import History

ID = 'C01'
LEVEL = 'exploration'
TECHNIQUE = 'stateful property-based testing: generated projects and edit histories against a from-scratch evaluator'
NOTE = ('Random search over generated projects and histories with shrinking; the oracle evaluates the '
        'project without any cache. Assumes outputs are only touched by removing them, a changed file '
        'gets a new or recent modification time, and each output file belongs to one call.')
RULE = ('A case is a generated project (cached functions, methods and properties with declared and '
        'registered sources and outputs, nested calls; or one whose values are instances of classes that '
        'are renamed, moved, changed or removed) and a history of sessions separated by edits; non-trivial: '
        'some call was answered from the database and some body ran again after an edit.')


def run(case, env):
    d = env.scratch()
    try:
        h = History(case, env, d)
        for i, sess in enumerate(case['sessions']):
            rows = h.session(sess)
            where = 'session %d' % i
            h.check_results(rows, where)
            h.check_outputs(rows, where)
            h.check_minimal(rows, where, check=False)
        st = h.stats
        env.label(case['engine'])
        if st['hits']:
            env.label('hit')
        if st['rerun_after_edit']:
            env.label('rerun')
        if st['exc']:
            env.label('exception')
        env.nontrivial(st['hits'] and st['rerun_after_edit'])
    finally:
        env.clean(d)


FEAT = {'err': True}
PARTS = [
    Part('history', lambda tier: histories(FEAT), run, 650, 20000),
    Part('focused', lambda tier: focused({'err': True}), run, 650, 20000),
    Part('classes', lambda tier: clsgen.cases(), clsgen.run, 300, 10000),
]
