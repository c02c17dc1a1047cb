"""Cached functions whose bodies follow a program set from outside (C06, C08)."""
import fbuild
import fbuild.db
import rt

PROGRAM = {}        # node -> [[mode, [[node, arg], ...]], ...]
FAIL = {}           # 'node:x' -> [position, kind]
RAISED = []         # every exception object a body raised


class Odd(Exception):
    """Can neither be copied nor pickled, and is equal to nothing."""

    def __init__(self, a, b):
        super().__init__()
        self.ab = (a, b)
        self.f = lambda: a

    def __eq__(self, other):
        raise RuntimeError('compared')

    __hash__ = Exception.__hash__

    def __reduce__(self):
        raise RuntimeError('pickled')


KINDS = {
    'build': lambda k: rt.BuildErr(k),
    'error': lambda k: fbuild.Error(k),
    'exec': lambda k: fbuild.ExecutionError(['false', k], b'', b'', 3),
    'key': lambda k: KeyError(k),
    'os': lambda k: FileNotFoundError(2, k),
    'stop': lambda k: StopIteration(k),
    'assert': lambda k: AssertionError(k),
    'odd': lambda k: Odd(k, 1),
    'exit': lambda k: SystemExit(k),
    'generator': lambda k: GeneratorExit(k),
    'base': lambda k: BaseException(k),
}


def fail(k):
    kind = FAIL[k][1]
    e = KINDS[kind](k)
    RAISED.append((k, e))
    raise e


def which(e):
    """The node whose failure this very exception object is."""
    for k, r in RAISED:
        if r is e:
            return k
    return 'not the exception that was raised: %r' % (e,)


def run_node(name, ctx, x):
    k = '%s:%d' % (name, x)
    acc = rt.Acc(name, {'x': x})
    at = FAIL.get(k, [-1])[0]
    for i, (mode, calls) in enumerate(PROGRAM.get(name, ())):
        if at == i:
            fail(k)
        if mode in ('plain', 'try'):
            for callee, arg in calls:
                y = x if arg == 'x' else arg
                if mode == 'plain':
                    acc.add(NODES[callee](ctx, y))
                else:
                    try:
                        acc.add(NODES[callee](ctx, y))
                    except BaseException as e:
                        acc.add('caught ' + which(e))
        else:
            def one(c):
                return NODES[c[0]](ctx, x if c[1] == 'x' else c[1])
            if mode == 'map':
                acc.add(ctx.scheduler.map(one, calls))
            else:
                try:
                    acc.add(ctx.scheduler.map(one, calls))
                except BaseException as e:
                    acc.add('caught ' + which(e))
    if at >= len(PROGRAM.get(name, ())):
        fail(k)
    return acc.done(acc.token())


@fbuild.db.caches
def n0(ctx, x):
    return run_node('n0', ctx, x)


@fbuild.db.caches
def n1(ctx, x):
    return run_node('n1', ctx, x)


@fbuild.db.caches
def n2(ctx, x):
    return run_node('n2', ctx, x)


@fbuild.db.caches
def n3(ctx, x):
    return run_node('n3', ctx, x)


@fbuild.db.caches
def n4(ctx, x):
    return run_node('n4', ctx, x)


@fbuild.db.caches
def n5(ctx, x):
    return run_node('n5', ctx, x)


NODES = {f.__name__: f for f in (n0, n1, n2, n3, n4, n5)}


def request(ctx, r):
    """One request of a session; what came of it."""
    rt.EVENTS.clear()
    try:
        if r[0] == 'call':
            v = NODES[r[1][0]](ctx, r[1][1])
        else:
            v = ctx.scheduler.map(lambda c: NODES[c[0]](ctx, c[1]), r[1])
        o = {'ok': v}
    except BaseException as e:
        o = {'exc': which(e)}
    o['started'] = [k for ev, k in rt.EVENTS if ev == 'S']
    return o
