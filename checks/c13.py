"""C13: globbing finds exactly the matching files."""
import os

from hypothesis import strategies as st

from pbt import fnref, trees
from pbt.core import Fail, Part

ID = 'C13'
LEVEL = 'exploration'
TECHNIQUE = ('property-based testing: generated directory trees, patterns and exclusions, differential against '
             'matching every path of the tree')
NOTE = ('Random search with shrinking. The reference lists the whole tree and matches component by component. '
        'With several ** a path may be yielded more than once; links do not form loops.')
RULE = ('A case is a tree and a series of globs; non-trivial: some glob with a wildcard finds a proper, '
        'non-empty subset of the tree.')

PLAIN = 'ab.c'
EXTRA = '*?[]{},!h}]A \n'


@st.composite
def component(draw, tree):
    k = draw(st.integers(0, 9))
    names = sorted({c for e in tree for c in e[0].split('/')})
    if k <= 3 and names:
        n = draw(st.sampled_from(names))
        m = draw(st.integers(0, 5))
        if m == 0:
            return n
        i = draw(st.integers(0, len(n) - 1))
        if m == 1:
            return n[:i] + draw(st.sampled_from(['?', '*', '[%s]' % n[i], '[!%s]' % n[i], '[a-c]'])) + n[i + 1:]
        if m == 2:
            return n[:i] + '*'
        if m == 3:
            return '{%s,%s}' % (n, draw(st.sampled_from(names)))
        if m == 4:
            return ''.join('[%s]' % c if c in '*?[{' else c for c in n)
        return n[:i] + '{%s,x}' % n[i] + n[i + 1:]
    if k <= 5:
        return '*'
    if k <= 7:
        return '**'
    return draw(fnref.patterns(1, PLAIN, EXTRA).filter(lambda s: s not in ('', '.', '..')))


@st.composite
def patterns(draw, tree):
    prefix = draw(st.sampled_from(['', '', '', '', './', 'ABS/', '../cwd/']))
    n = draw(st.integers(1, 4))
    comps = [draw(component(tree)) for _ in range(n)]
    # several ** in one pattern multiply the work
    while comps.count('**') > 2:
        comps.remove('**')
    return [prefix, comps, draw(st.sampled_from([False, False, False, True]))]


@st.composite
def cases(draw):
    tree = draw(trees.trees())
    ops = []
    paths = [e[0] for e in tree] + ['nothere', 'a/nothere']
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['glob', 'glob', 'plainglob', 'globall', 'literal', 'escape']))
        if kind in ('literal', 'escape'):
            op = [kind, draw(st.sampled_from(['', './', 'ABS/'])), draw(st.sampled_from(paths)),
                  draw(st.sampled_from([False, False, True]))]
        elif kind == 'plainglob':
            op = [kind, draw(patterns(tree)), draw(st.booleans())]
        else:
            exclude = draw(st.lists(st.one_of(
                st.sampled_from(['*.c', '*/a*', 'a', '*/b.c', '{a,b}*', 'a/*', './*']),
                st.sampled_from(paths), fnref.patterns(1, PLAIN + '/', EXTRA)), max_size=2))
            if kind == 'glob':
                op = [kind, draw(patterns(tree)), exclude]
            else:
                nest = draw(st.recursive(patterns(tree).map(lambda p: ['P', p]),
                                         lambda c: st.lists(c, max_size=3).map(lambda x: ['L'] + x),
                                         max_leaves=4))
                op = [kind, [nest] + ([['P', draw(patterns(tree))]] if draw(st.booleans()) else []), exclude]
        ops.append(op)
    return {'tree': tree, 'ops': ops}


def text(p, root):
    prefix, comps, slash = p
    return prefix.replace('ABS', root) + '/'.join(comps) + ('/' if slash else '')


MAGIC = set('*?[{')


def comp_match(pat, name):
    if not MAGIC & set(pat):
        return pat == name
    if name.startswith('.') and not pat.startswith('.'):
        return False
    return fnref.match(name, pat)


def matches(comps, path, recursive):
    """Whether the path components match."""
    if not comps:
        return not path
    if comps[0] == '**' and recursive:
        if matches(comps[1:], path, recursive):
            return True
        return bool(path) and not path[0].startswith('.') and matches(comps, path[1:], recursive)
    return bool(path) and comp_match(comps[0], path[0]) and matches(comps[1:], path[1:], recursive)


def expected(p, everything, root, recursive=True):
    prefix, comps, slash = p
    prefix = prefix.replace('ABS', root)
    out = set()
    for path, isdir in everything:
        name = prefix + '/'.join(path)
        if slash:
            if isdir and matches(comps, path, recursive):
                out.add(name + '/')
        elif comps[-1] == '**' and recursive:
            # standing for no directory
            if isdir and matches(comps[:-1], path, recursive):
                out.add(name + '/')
            # standing for the last k components
            for k in range(1, len(path) + 1):
                if path[-k].startswith('.'):
                    break
                if matches(comps[:-1], path[:-k], recursive):
                    out.add(name)
        elif matches(comps, path, recursive):
            out.add(name)
    if prefix and recursive and all(c == '**' for c in comps):
        out.add(prefix)
    return out


def flatten(nest):
    if nest[0] == 'P':
        return [nest[1]]
    return [p for n in nest[1:] for p in flatten(n)]


def run(case, env):
    base = env.scratch()
    root = os.path.join(base, 'cwd')
    os.mkdir(root)
    try:
        trees.make(root, case['tree'])
        everything = trees.everything(root)
        jobs, wants = [], []
        for op in case['ops']:
            kind = op[0]
            if kind in ('literal', 'escape'):
                name = op[1].replace('ABS', root) + op[2] + ('/' if op[3] else '')
                full = os.path.join(root, op[2])
                there = os.path.isdir(full) if op[3] else os.path.lexists(full)
                if kind == 'literal' and MAGIC & set(name):
                    kind = 'escape'
                jobs.append([kind, name])
                wants.append(([[name] if there else []], [], True))
            elif kind == 'plainglob':
                jobs.append([kind, text(op[1], root), op[2]])
                wants.append(([expected(op[1], everything, root, op[2])], [],
                              op[1][1].count('**') < 2 or not op[2]))
            elif kind == 'glob':
                jobs.append([kind, text(op[1], root), op[2]])
                wants.append(([expected(op[1], everything, root)], op[2], op[1][1].count('**') < 2))
            else:
                def conv(n):
                    return ['P', text(n[1], root)] if n[0] == 'P' else ['L'] + [conv(x) for x in n[1:]]
                jobs.append([kind, [conv(n) for n in op[1]], op[2]])
                ps = [p for n in op[1] for p in flatten(n)]
                wants.append(([expected(p, everything, root) for p in ps], op[2],
                              all(p[1].count('**') < 2 for p in ps)))
        got = env.call('jobs_pure', 'globs', fork=False, root=root, ops=jobs)
        for job, (parts, exclude, exact), g in zip(jobs, wants, got):
            env.label(job[0])
            parts = [[p for p in part if not any(fnref.match(p, x) for x in exclude)] for part in parts]
            if exact:
                want = sorted(p for part in parts for p in part)
            else:
                want = sorted({p for part in parts for p in part})
                env.label('several **')
            if isinstance(g, str):
                raise Fail('%r in %s: %s' % (job, case['tree'], g))
            have = sorted(g if exact else set(g))
            if have != want:
                raise Fail('%r in %s: found %r, expected %r' % (job, case['tree'], have, want))
            if exclude:
                env.label('exclude')
            if 0 < len(set(want)) < len(everything) and job[0] not in ('literal', 'escape'):
                env.nontrivial()
    finally:
        env.clean(base)


PARTS = [Part('glob', lambda tier: cases(), run, 6000, 200000)]
