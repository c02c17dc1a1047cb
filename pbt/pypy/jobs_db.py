"""Sessions of generated projects, run in a forked child of the fork server."""
import importlib
import os
import sys
import threading
import time

import fbuild
import fbuild.context
import fbuild.db
import fbuild.options

import rt
from codec import dec, enc


def make_context(engine, jobs=1, extra=()):
    ctx = fbuild.context.make_default_context(
        ['--buildroot=build', '--database-engine=' + engine, '-j%d' % jobs, '--no-color'] + list(extra))
    rt.CTX = ctx
    return ctx


def open_session(ctx):
    ctx.create_buildroot()
    ctx.load_configuration()


def close_session(ctx):
    try:
        ctx.save_configuration()
        ctx.db.shutdown()
    finally:
        ctx.scheduler.shutdown()


def val(e, results):
    if e[0] == 'lit':
        return dec(e[1])
    if e[0] == 'res':
        return results[e[1]]
    if e[0] == 'path':
        return e[1]
    raise ValueError(e)


def target(ctx, mod, st):
    """The callable of a step and its positional/keyword arguments."""
    if st.get('mod'):
        mod = sys.modules[st['mod']]
    if st.get('cls'):
        obj = getattr(mod, st['cls'])(ctx, *([st['tag']] if st['tag'] is not None else []))
        if st.get('prop'):
            return (lambda: getattr(obj, st['fn'])), None
        return getattr(obj, st['fn']), ()
    return getattr(mod, st['fn']), (ctx,)


def do_call(ctx, mod, st, results):
    fn, pre = target(ctx, mod, st)
    if pre is None:
        return fn(), None, None
    args = tuple(val(e, results) for e in st['args'])
    kwargs = {k: val(e, results) for k, e in st['kwargs'].items()}
    if st.get('full'):
        return fn.call(*(pre + args), **kwargs)
    return fn(*(pre + args), **kwargs), None, None


def apply_fs(op):
    if op[0] == 'file':
        _, path, content, mtime = op
        os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
        with open(path, 'w') as f:
            f.write(content)
        if mtime is not None:
            os.utime(path, (mtime, mtime))
    elif op[0] == 'utime':
        os.utime(op[1], (op[2], op[2]))
    elif op[0] == 'rm':
        if os.path.lexists(op[1]):
            os.remove(op[1])
    else:
        raise ValueError(op)


def describe(e):
    return [type(e).__name__, str(e)[:300]]


def map_calls(ctx, mod, calls, results):
    active = set()

    def one(k):
        active.add(k)
        try:
            return do_call(ctx, mod, calls[k], results)[0]
        finally:
            active.discard(k)
    try:
        return ctx.scheduler.map(one, range(len(calls)))
    except Exception:
        # items already under way when another one failed may go on
        end = time.monotonic() + 20
        while active and time.monotonic() < end:
            time.sleep(0.001)
        raise


def run_step(ctx, mod, st, results):
    rt.TRACE.clear()
    rt.DONE.clear()
    rt.EVENTS.clear()
    obs = {}
    try:
        if st['op'] == 'fs':
            apply_fs(st['do'])
            v = None
        elif st['op'] == 'call':
            v, srcs, dsts = do_call(ctx, mod, st, results)
            if srcs is not None:
                obs['srcs'] = sorted(srcs)
                obs['dsts'] = sorted(dsts)
        elif st['op'] == 'db':
            v = getattr(ctx.db, st['do'])(st['name'])
        elif st['op'] == 'map':
            v = map_calls(ctx, mod, st['calls'], results)
        else:
            raise ValueError(st)
        obs['ok'] = enc(v)
        results.append(v)
    except Exception as e:
        obs['exc'] = describe(e)
        results.append(None)
        del e
    obs['ev'] = list(rt.EVENTS)
    return obs


class Switches:
    """Chooses which of the tasks that wait at a point of their body goes on.  All the
    others stay where they are until that one waits, ends, or has nothing to do."""

    def __init__(self, ctx, choices, quiet=0.0012):
        self.ctx = ctx
        self.choices = list(choices)
        self.quiet = quiet
        self.cond = threading.Condition()
        self.waiting = []
        self.last = 0
        self.most = 0
        self.switches = 0
        self.main = threading.current_thread()

    def __call__(self, acc):
        if threading.current_thread() is self.main:
            return
        with self.ctx.scheduler.interruptible():
            with self.cond:
                me = [acc.key]
                self.waiting.append(me)
                self.most = max(self.most, len(self.waiting))
                self.last = time.monotonic()
                while any(w is me for w in self.waiting):
                    self.cond.wait(self.quiet / 2)
                    if any(w is me for w in self.waiting) and \
                            time.monotonic() - self.last >= self.quiet:
                        self.last = time.monotonic()
                        n = (self.choices.pop(0) if self.choices else 0) % len(self.waiting)
                        self.switches += n != 0
                        del self.waiting[n]
                        self.cond.notify_all()


def session(root, engine, steps, jobs=1, extra=(), save=True, choices=None):
    os.chdir(root)
    sys.path.insert(0, root)
    ctx = make_context(engine, jobs, extra)
    if choices is not None:
        rt.YIELD = switches = Switches(ctx, choices)
    obs = []
    try:
        open_session(ctx)
        import fbproj
        results = []
        for st in steps:
            obs.append(run_step(ctx, fbproj, st, results))
    finally:
        close_session(ctx)
    if choices is not None:
        obs[-1]['most'] = switches.most
        obs[-1]['switches'] = switches.switches
    return obs
