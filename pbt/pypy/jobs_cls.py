"""Sessions of projects whose values are instances of classes that move (C01)."""
import os
import sys
import types

import fbuild.db
import jobs_db
from codec import enc


def show(v):
    """The value as data: instances become ['I', class, fields]."""
    if isinstance(v, fbuild.db.PersistentObject) or hasattr(v, '__plain__'):
        return ['I', type(v).__module__ + '.' + type(v).__qualname__,
                sorted([k, show(x)] for k, x in vars(v).items() if k != 'ctx')]
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return ['I', type(v).__module__ + '.' + type(v).__qualname__,
                sorted([k, show(x)] for k, x in zip(v._fields, v))]
    if isinstance(v, list):
        return ['L'] + [show(x) for x in v]
    if isinstance(v, tuple):
        return ['T'] + [show(x) for x in v]
    if isinstance(v, dict):
        return ['D'] + sorted([show(k), show(x)] for k, x in v.items())
    return v


def session(root, engine, calls):
    os.chdir(root)
    sys.path.insert(0, root)
    ctx = jobs_db.make_context(engine)
    out = []
    try:
        jobs_db.open_session(ctx)
        import fbproj
        for name, args in calls:
            del fbproj.RUNS[:]
            try:
                o = {'ok': show(fbproj.do(ctx, name, args))}
            except Exception as e:
                import traceback
                o = {'exc': traceback.format_exc()[-1200:]}
            o['runs'] = list(fbproj.RUNS)
            out.append(o)
    finally:
        jobs_db.close_session(ctx)
    return out
