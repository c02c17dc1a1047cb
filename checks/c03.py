"""C03: a change of function text reaches exactly its users."""
import copy
import os

from pbt.core import Fail, Part
from pbt.graph import Model, cases, render

ID = 'C03'
LEVEL = 'exploration'
TECHNIQUE = 'stateful property-based testing: generated call graphs and text edits against a model of who used whom'
NOTE = ('Random search over generated call graphs, edits and request orders with shrinking; the model tracks '
        'per call what it used when it ran (must run again) and per function what it ever used (may run again).')
RULE = ('A case is a generated program of cached functions, methods, properties and constructors using each '
        'other, and a history of text edits and requests; non-trivial: a recorded call ran again because of an '
        'edit and another one was answered from the database.')


def run(case, env):
    d = env.scratch()
    try:
        m = Model(copy.deepcopy(case['project']))
        for n, (edits, reqs) in enumerate(case['sessions']):
            for e in edits:
                m.edit(e)
            for name, text in render(m.p).items():
                with open(os.path.join(d, name), 'w') as f:
                    f.write(text)
            m.begin()
            steps = []
            for name, cls, x in reqs:
                u = m.by(name)
                st = {'op': 'call', 'fn': name, 'args': [] if u['kind'] == 'prop' else [['lit', x]],
                      'kwargs': {}}
                if u['kind'] == 'fun':
                    st['mod'] = u['mod']
                else:
                    st.update(cls=cls, tag=None, prop=u['kind'] == 'prop')
                steps.append(st)
            obs = env.call('jobs_db', 'session', root=d, engine=case['engine'], steps=steps)
            for j, (r, o) in enumerate(zip(reqs, obs)):
                where = 'session %d request %d %s' % (n, j, r)
                if 'exc' in o:
                    raise Fail('%s: raised %s' % (where, o['exc']))
                started = [k for ev, k in o['ev'] if ev == 'S']
                want = m.value(r, {})
                m.request(r, started, where)
                if started:
                    raise Fail('%s: ran %s without being asked to' % (where, started))
                if o['ok'] != want:
                    raise Fail('%s: returned %r; the current text gives %r' % (where, o['ok'], want))
        env.label(case['engine'])
        for k, v in m.stats.items():
            if v:
                env.label(k)
        env.nontrivial(m.stats['hit'] and m.stats['may'])
    finally:
        env.clean(d)


PARTS = [
    Part('graph', lambda tier: cases(), run, 900, 20000),
]
