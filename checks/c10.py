"""C10: map_with_dependencies respects every dependency."""
from hypothesis import strategies as st

from pbt.core import Fail, Part

ID = 'C10'
LEVEL = 'exploration'
TECHNIQUE = ('property-based testing of graphs and schedules: generated dependency graphs, failures, waits and thread '
             'counts, checked against a reference order and invariants over the recorded history')
NOTE = ('Random search with shrinking; the interleavings are those of real threads with generated waits and a very short '
        'switch interval, not all of them.')
RULE = ('A case is a number of threads and a series of dependency graphs; non-trivial: two or more threads, and a '
        'graph with at least four items and four dependencies among them, or one with a loop and other items.')

KINDS = ['value', 'error', 'exit', 'stop', 'runtime', 'base']


@st.composite
def graphs(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8]))
    if draw(st.integers(0, 160)) == 0:
        n = draw(st.sampled_from([400, 1500]))
        names = ['n%d' % i for i in range(n)]
        deps = {a: [b] for a, b in zip(names, names[1:])}
        if draw(st.booleans()):
            deps[names[-1]] = [names[draw(st.integers(0, n - 1))]]
        srcs = names if draw(st.booleans()) else names[::-1]
        return {'srcs': srcs, 'deps': deps, 'fail': {}, 'fail_dep': {}, 'delay': {}, 'nested': {}, 'form': 'list'}
    names = ['n%d' % i for i in range(n)]
    cyclic = draw(st.integers(0, 2)) == 0
    deps = {}
    for i, a in enumerate(names):
        pool = names if cyclic else names[i + 1:]
        d = draw(st.lists(st.sampled_from(pool + ['other', 'n99']), max_size=3)) if pool else []
        if d:
            deps[a] = d
    if draw(st.integers(0, 3)) == 0:
        k = draw(st.integers(1, n))
        loop = draw(st.permutations(names))[:k]
        for a, b in zip(loop, loop[1:] + loop[:1]):
            deps.setdefault(a, []).append(b)
    srcs = list(draw(st.permutations(names)))
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        srcs.insert(draw(st.integers(0, len(srcs))), draw(st.sampled_from(names)))
    some = st.lists(st.sampled_from(names), max_size=2, unique=True)

    def sometimes(k, v):
        return {a: draw(v) for a in draw(some)} if draw(st.integers(0, k)) == 0 else {}

    return {'srcs': srcs, 'deps': deps,
            'fail': sometimes(2, st.sampled_from(KINDS)), 'fail_dep': sometimes(8, st.sampled_from(KINDS)),
            'delay': {a: draw(st.integers(0, 3)) for a in names} if draw(st.booleans()) else {},
            'nested': sometimes(3, st.lists(st.integers(0, 4), max_size=2)),
            'form': draw(st.sampled_from(['list', 'tuple', 'generator', 'iter']))}


@st.composite
def cases(draw):
    return {'threads': draw(st.sampled_from([1, 2, 2, 3, 4, 6])),
            'rounds': draw(st.lists(graphs(), min_size=1, max_size=3))}


def reach(deps, a):
    """Everything the item depends on, directly or indirectly."""
    seen, todo = set(), list(deps.get(a, ()))
    while todo:
        b = todo.pop()
        if b not in seen:
            seen.add(b)
            todo.extend(deps.get(b, ()))
    return seen


def dfs(srcs, deps):
    out, seen = [], set()
    for s in srcs:
        if s in seen:
            continue
        seen.add(s)
        stack = [(s, iter(deps.get(s, ())))]
        while stack:
            a, it = stack[-1]
            for b in it:
                if b not in seen:
                    seen.add(b)
                    stack.append((b, iter(deps.get(b, ()))))
                    break
            else:
                stack.pop()
                out.append(a)
    return out


def check(case, o, env, n):
    items = set(case['srcs'])
    deps = {a: [b for b in d if b in items] for a, d in case['deps'].items()}
    big = len(items) > 100
    if big:
        # a chain, perhaps with a way back
        last = case['deps'].get('n%d' % (len(items) - 1))
        loop = set()
        if last:
            loop = {'n%d' % i for i in range(int(last[0][1:]), len(items))}
        behind = items - loop if loop else set()
        above = {a: () for a in items}
    else:
        above = {a: reach(deps, a) for a in items}
        loop = {a for a in items if a in above[a]}
        behind = {a for a in items if above[a] & loop} - loop
    starts = [e[1] for e in o['events'] + o['late'] if e[0] == 'start']
    where = 'round %d' % n
    for a in set(starts):
        if starts.count(a) > 1:
            raise Fail('%s: %s was run %d times' % (where, a, starts.count(a)))
        if a not in items:
            raise Fail('%s: %s was run but is not among the items' % (where, a))
        if a in loop or a in behind:
            raise Fail('%s: %s was run although it is on a loop or depends on one' % (where, a))
    # order and failures
    done, began = set(), set()
    for ev, a in o['events'] + o['late']:
        if ev == 'start':
            for b in (above[a] if not big else deps.get(a, ())):
                if b not in done:
                    raise Fail('%s: %s was started before %s had completed' % (where, a, b))
        else:
            done.add(a)
    asked = sorted(set(o['asked']))
    failing_dep = {a for a in items if a in case['fail_dep']}
    failing = {a for a in items - loop - behind if a in case['fail'] and
               not any(b in case['fail'] for b in above[a])}
    if failing_dep:
        env.label('depends fails')
        if o.get('exc') not in failing_dep:
            raise Fail('%s: %s, expected the failure of %s' % (where, show(o), sorted(failing_dep)))
        if starts:
            raise Fail('%s: %s were run although dependencies are not known' % (where, starts))
        return
    if asked != sorted(items):
        raise Fail('%s: the dependencies of %s were asked for' % (where, asked))
    if failing:
        env.label('fails')
        if o.get('exc') not in failing:
            raise Fail('%s: %s, expected the failure of one of %s' % (where, show(o), sorted(failing)))
        return
    if loop:
        env.label('loop')
        if behind or items - loop:
            env.nontrivial()
        if 'loop' not in o:
            raise Fail('%s: %s, expected a dependency loop of %s' % (where, show(o), sorted(loop)))
        named = {x for s in o['loop'] for x in s}
        if not named or named - loop:
            raise Fail('%s: the dependency loop names %s, but on loops are %s' % (
                where, o['loop'], sorted(loop)))
        if not any(x in o['text'] for x in loop):
            raise Fail('%s: the message %r names no item' % (where, o['text']))
        if set(starts) != items - loop - behind:
            env.label('loop, not all others run')
        return
    want = ['r:' + a for a in dfs(case['srcs'], deps)]
    if o.get('ok') != want:
        raise Fail('%s: %s, expected %s' % (where, show(o), want))
    if set(starts) != items:
        raise Fail('%s: %s were not run' % (where, sorted(items - set(starts))))


def show(o):
    return {k: v for k, v in o.items() if k in ('ok', 'exc', 'loop', 'text')}


def run(case, env):
    out = env.call('jobs_sched', 'run_deps', threads=case['threads'], rounds=case['rounds'], timeout=40)
    for n, (g, o) in enumerate(zip(case['rounds'], out)):
        check(g, o, env, n)
        edges = sum(len(d) for d in g['deps'].values())
        env.nontrivial(case['threads'] > 1 and len(set(g['srcs'])) >= 4 and edges >= 4)
    env.label('%d threads' % case['threads'])


PARTS = [Part('graph', lambda tier: cases(), run, 2400, 80000)]
