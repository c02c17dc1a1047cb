"""Sessions that call cached functions with arbitrary values (C05)."""
import os
import sys

import fbuild.db
import jobs_db
import valproj
from codec import dec, enc
from fbuild.path import Path


def build(ctx, v):
    """A value from its description; ['O', class, args, kwargs] calls the class."""
    if not isinstance(v, list):
        return dec(v)
    t = v[0]
    if t == 'O':
        return getattr(valproj, v[1])(ctx, *[build(ctx, x) for x in v[2]],
                                      **{k: build(ctx, x) for k, x in v[3].items()})
    if t == 'L':
        return [build(ctx, x) for x in v[1:]]
    if t == 'T':
        return tuple(build(ctx, x) for x in v[1:])
    if t in ('D', 'R'):
        d = {build(ctx, k): build(ctx, x) for k, x in v[1:]}
        return valproj.Record(d) if t == 'R' else d
    return dec(v)


def contexts(v, ctx, seen=None):
    """Whether all the persistent objects inside hold the context."""
    if isinstance(v, fbuild.db.PersistentObject):
        return v.ctx is ctx and all(contexts(x, ctx) for k, x in v.__dict__.items() if k != 'ctx')
    if isinstance(v, dict):
        return all(contexts(x, ctx) for x in v.values())
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(contexts(x, ctx) for x in v)
    return True


def session(root, engine, base, src, requests):
    os.chdir(root)
    valproj.SERIAL = base
    exec(compile_src(root, src), valproj.__dict__)
    ctx = jobs_db.make_context(engine)
    out = []
    try:
        jobs_db.open_session(ctx)
        for r in requests:
            del valproj.RUNS[:]
            o = {}
            try:
                kind, what, pos, kw = r
                obj = None
                if kind in ('method', 'prop'):
                    obj = build(ctx, what)
                args = [build(ctx, x) for x in pos]
                kwargs = {k: build(ctx, x) for k, x in kw.items()}
                if kind == 'fun':
                    v = getattr(valproj, what)(ctx, *args, **kwargs)
                elif kind == 'method':
                    v = obj.m(*args, **kwargs)
                elif kind == 'prop':
                    v = obj.p
                else:
                    v = build(ctx, what)
                o['ok'] = enc(v)
                o['ctx'] = contexts(v, ctx)
            except Exception as e:
                import traceback
                o['exc'] = traceback.format_exc()
            o['runs'] = list(valproj.RUNS)
            out.append(o)
    finally:
        jobs_db.close_session(ctx)
    return out


def compile_src(root, src):
    # the text has to be found again by the digests
    p = os.path.join(root, 'funs.py')
    with open(p, 'w') as f:
        f.write(src)
    return compile(src, p, 'exec')
