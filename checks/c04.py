"""C04: all database engines behave the same."""
import os

from pbt.core import Fail, Part, canon
from pbt.dbgen import focused, histories
from pbt.dbrun import History

ID = 'C04'
LEVEL = 'exploration'
TECHNIQUE = 'differential property-based testing: the same generated history on every database engine'
NOTE = ('Random search over generated projects, histories and maintenance operations with shrinking; each '
        'history runs once per engine in its own directory and all observations are compared.')
RULE = ('A case is a generated project and a history of sessions with edits and deletions of functions and '
        'files from the database; non-trivial: some call was answered from the database, and something ran '
        'again after an edit or deletion.')
WHAT = {'ok': 'result', 'exc': 'exception', 'srcs': 'source files', 'dsts': 'output files',
        'ev': 'functions run'}


def run(case, env):
    dirs = {}
    maps = '"map"' in canon(case)
    try:
        hs = {}
        for e in ('pickle', 'sqlite', 'cache'):
            dirs[e] = env.scratch()
            hs[e] = History(case, env, dirs[e], engine=e)
        deleted = False
        for i, sess in enumerate(case['sessions']):
            rows = {}
            for e in ('pickle', 'sqlite', 'cache'):
                if e == 'cache' and i:
                    continue
                rows[e] = hs[e].session(sess)
            base = rows['pickle']
            hs['pickle'].check_minimal(base, '', check=False)
            for e in rows:
                for j, ((s, p, a), (_, _, b)) in enumerate(zip(base, rows[e])):
                    if s['op'] == 'db' and a.get('ok'):
                        deleted = True
                    for k in sorted(set(a) | set(b)):
                        x, y = a.get(k), b.get(k)
                        if k == 'ev' and maps:
                            # the items of a map are started in any order
                            x, y = sorted(x), sorted(y)
                        if k == 'exc' and x and y:
                            # files that are reported missing may be any of several
                            x, y = x[0], y[0]
                        if x != y:
                            raise Fail('session %d step %d %s: %s with pickle: %r; with %s: %r' % (
                                i, j, s, WHAT.get(k, k), x, e, y))
        st = hs['pickle'].stats
        env.label(*[k for k in st if st[k]])
        if deleted:
            env.label('deleted')
        env.nontrivial(st['hits'] and (st['rerun_after_edit'] or deleted))
    finally:
        for d in dirs.values():
            env.clean(d)


# a function that registers other sources, depending on what is in one
LISTS = {'err': False, 'map': False, 'topmap': False, 'funedits': False, 'fsteps': False, 'rec': False, 'min_body': 1, 'lists': True,
         'fsops': ['file', 'file', 'touch'], 'used_pct': 95, 'first_pct': 60, 'repeat_pct': 95, 'full_pct': 80, 'plain_pct': 60}

PARTS = [
    Part('history', lambda tier: histories({'err': True, 'map': False, 'topmap': False}), run, 150, 8000),
    Part('focused', lambda tier: focused({'err': True, 'map': False, 'topmap': False}), run, 240, 8000),
    Part('lists', lambda tier: histories(LISTS, lo=1, hi=2, sessions=(4, 6), max_steps=2), run, 120, 6000),
    Part('maintenance', lambda tier: histories({'maintenance': True}), run, 250, 8000),
]
