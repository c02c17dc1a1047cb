"""C12: file name patterns match as documented."""
from hypothesis import strategies as st

from pbt import fnref
from pbt.core import Fail, Part

ID = 'C12'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: generated patterns and names, differential against a reference matcher'
NOTE = ('Random search with shrinking over patterns with nested and unclosed constructs and names derived '
        'from them; the reference matches by sets of positions and shares nothing with regular expressions.')
RULE = ('A case is a series of patterns with names to match and filter; non-trivial: some name matches and '
        'some does not, and a pattern has a wildcard, a set or braces.')

CHARS = fnref.PLAIN + fnref.SPECIAL + fnref.WIDE


def swap(s):
    return ''.join(c.swapcase() if c < '\x7f' else c for c in s)


@st.composite
def names(draw, pat):
    k = draw(st.integers(0, 5))
    if k == 0:
        return draw(st.text(CHARS, max_size=4))
    s = fnref.sample(fnref.parse(pat), draw, CHARS)
    if k == 1:
        return pat
    if k == 2:
        return s + draw(st.sampled_from(['\n', '\n\n', 'a', ' ', '\x00']))
    if k == 3 and s:
        i = draw(st.integers(0, len(s) - 1))
        return s[:i] + draw(st.sampled_from(['', 'x', '\n', s[i] * 2])) + s[i + 1:]
    if k == 4 and s:
        return swap(s)
    return s


@st.composite
def cases(draw):
    pats = draw(st.lists(
        st.one_of(fnref.patterns(), fnref.patterns(), st.text(fnref.SPECIAL + 'ab-', max_size=6)),
        min_size=1, max_size=3))
    if draw(st.booleans()):
        pats.append(swap(pats[0]))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        pat = draw(st.sampled_from(pats))
        ops.append([draw(st.sampled_from(['fnmatch', 'case', 'filter', 'path'])),
                    draw(st.sampled_from(['str', 'str', 'bytes', 'path'])),
                    pat, draw(st.lists(names(pat), min_size=1, max_size=5))])
    return {'ops': ops}


def run(case, env):
    got = env.call('jobs_pure', 'match', fork=False, ops=case['ops'])
    yes = no = wild = False
    for (fn, kind, pat, ns), g in zip(case['ops'], got):
        want = [fnref.match(n, pat) for n in ns]
        env.label(fn, kind)
        for c in '*?[{':
            if c in pat:
                wild = True
                env.label('has ' + c)
        yes |= True in want
        no |= False in want
        if isinstance(g, str):
            raise Fail('%s of %r against %r: %s' % (fn, ns, pat, g))
        if fn == 'filter':
            want = [n for n, w in zip(ns, want) if w]
            if g != want:
                raise Fail('filter(%r, %r) keeps %r, expected %r' % (ns, pat, g, want))
        else:
            for n, a, b in zip(ns, g, want):
                if a is not b:
                    raise Fail('%s(%r, %r) as %s is %r, expected %r' % (fn, n, pat, kind, a, b))
    env.nontrivial(yes and no and wild)


PARTS = [Part('match', lambda tier: cases(), run, 10000, 400000)]
