"""Signatures and calls of them, right and wrong ones."""
from hypothesis import strategies as st

NAMES = ['a', 'b', 'c', 'd', 'kw', 'args', 'kwargs', 'e', 'self_', 'value']


@st.composite
def signatures(draw, posonly=True):
    """{'params': [[name, kind, default or None]]}; kinds: po pk va ko vk."""
    names = list(draw(st.permutations(NAMES)))
    out = []
    n_po = draw(st.sampled_from([0, 0, 0, 1, 2])) if posonly else 0
    n_pk = draw(st.integers(0, 4))
    first_def = draw(st.integers(0, n_po + n_pk))
    for i in range(n_po + n_pk):
        d = None if i < first_def else 100 + i
        out.append([names.pop(), 'po' if i < n_po else 'pk', d])
    if draw(st.booleans()):
        out.append([draw(st.sampled_from(['args', 'kw', 'rest'])), 'va', None])
    for i in range(draw(st.integers(0, 3))):
        out.append([names.pop(), 'ko', 200 + i if draw(st.booleans()) else None])
    if draw(st.booleans()):
        out.append([draw(st.sampled_from(['kw', 'kwargs', 'options', 'e'])), 'vk', None])
    # names have to differ
    seen, res = set(), []
    for p in out:
        if p[0] not in seen:
            seen.add(p[0])
            res.append(p)
    return res


@st.composite
def calls(draw, params, valid_pc=70):
    """[positional count, {keyword: value}] of a call; valid more often than not."""
    pos = [p for p in params if p[1] in ('po', 'pk')]
    ko = [p for p in params if p[1] == 'ko']
    po = [p for p in params if p[1] == 'po']
    va = any(p[1] == 'va' for p in params)
    vk = any(p[1] == 'vk' for p in params)
    kwargs = {}
    if draw(st.integers(0, 99)) < valid_pc:
        lo = max([i + 1 for i, p in enumerate(po) if p[2] is None] or [0])
        n = draw(st.integers(lo, len(pos)))
        for i, p in enumerate(pos):
            if i >= n and p[1] == 'pk' and (p[2] is None or draw(st.booleans())):
                kwargs[p[0]] = 300 + i
        if n == len(pos) and va:
            n += draw(st.integers(0, 3))
        for i, p in enumerate(ko):
            if p[2] is None or draw(st.booleans()):
                kwargs[p[0]] = 400 + i
        if vk:
            for k in draw(st.lists(st.sampled_from(
                    ['z1', 'z2', 'name', 'args', 'function'] + [p[0] for p in po]), max_size=3)):
                if all(q[0] != k or q[1] in ('po', 'va', 'vk') for q in params):
                    kwargs[k] = 500
    else:
        n = draw(st.integers(0, len(pos) + 2))
        for k in draw(st.lists(st.sampled_from([p[0] for p in params] + ['z1', 'z2']), max_size=4)):
            kwargs[k] = 600
    return [n, kwargs]


def source(params, name='f', pre=()):
    parts = list(pre)
    names = [p[1] for p in params]
    for i, (n, kind, d) in enumerate(params):
        if kind == 'ko' and 'va' not in names[:i] and (i == 0 or names[i - 1] != 'ko'):
            parts.append('*')
        s = {'va': '*', 'vk': '**'}.get(kind, '') + n
        if d is not None:
            s += '=%r' % d
        parts.append(s)
        if kind == 'po' and (i + 1 == len(names) or names[i + 1] != 'po'):
            parts.append('/')
    return '%s(%s)' % (name, ', '.join(parts))
