"""C11: arguments bind as the Python language binds them."""
from hypothesis import strategies as st

from pbt.core import Fail, Part
from pbt.sigs import calls, signatures, source

ID = 'C11'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: generated signatures and calls, differential against the call made by the interpreter'
NOTE = 'Random search over signatures (every kind of parameter) and right and wrong calls, with shrinking.'
RULE = ('A case is a signature and a call of it; non-trivial: there are at least two parameters and the call '
        'has arguments.')
FORMS = ['function', 'function', 'method', 'static', 'class', 'wrapped', 'unbound']


@st.composite
def cases(draw):
    params = draw(signatures())
    n, kwargs = draw(calls(params))
    return {'params': params, 'n': n, 'kwargs': kwargs, 'form': draw(st.sampled_from(FORMS))}


def text(case):
    params, form = case['params'], case['form']
    ret = 'return locals()'
    if form == 'function':
        return 'def %s: %s\n' % (source(params), ret)
    if form == 'wrapped':
        return ('def %s: %s\n' % (source(params), ret) +
                '@functools.wraps(f)\ndef outer(*args, **kw):\n'
                '    return kw.pop("__FBUILD_INNER")(*args, **kw)\n')
    pre = {'method': ['self'], 'static': [], 'class': ['cls'], 'unbound': ['self']}[form]
    if pre and any(p[1] == 'po' for p in params):
        # they are positional-only then, too
        pass
    deco = {'static': '    @staticmethod\n', 'class': '    @classmethod\n'}.get(form, '')
    return 'class C:\n%s    def %s: %s\n' % (deco, source(params, pre=pre), ret)


def run(case, env):
    r = env.call('jobs_pure', 'bind', fork=False, src=text(case), form=case['form'],
                 n=case['n'], kwargs=case['kwargs'])
    env.label(case['form'], 'accepted' if r['want'] is not None else 'rejected')
    env.nontrivial(len(case['params']) > 1 and (case['n'] or case['kwargs']))
    for k, what in (('bind', 'bind_args'), ('norm', 'the call with normalize_args'),
                    ('inner', 'bind_args of a wrapped function')):
        if k in r and r[k] != r['want']:
            raise Fail('%s with %d positional arguments and %s: Python gives %s, %s gives %s%s' % (
                text(case), case['n'], case['kwargs'], r['want'], what, r[k],
                ' (%s)' % r[k + '_error'] if k + '_error' in r else ''))
    if not r['kept']:
        raise Fail('%s: the given arguments were modified' % text(case))


PARTS = [Part('bind', lambda tier: cases(), run, 16000, 400000)]
