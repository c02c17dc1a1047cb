"""Configuration probes (C22)."""
import functools
import importlib
import os
import sys

import fbuild
import jobs_cc
import jobs_db


def plain(x):
    import fbuild.config.c as c
    import fbuild.config.cxx as cxx
    if isinstance(x, c.Function):
        return ['Function', plain(x.return_type), [plain(a) for a in x.args]]
    if isinstance(x, c.IntType):
        return ['IntType', x.alignment, x.size, x.signed]
    if isinstance(x, c.Type):
        return ['Type', x.alignment, x.size]
    if isinstance(x, c.Struct):
        return ['Struct', [list(m) for m in x.members]]
    for t in (c.Macro, c.Variable, cxx.Template):
        if isinstance(x, t):
            return [t.__name__]
    if x is None or isinstance(x, str):
        return x
    raise TypeError(repr(x))


def prepare(root, tools, engine, comp, variants):
    jobs_cc.prepare(root, tools, engine, comp, variants)


def session(root, tools, engine, jobs, comp, variants, modules, probes):
    sys.path.insert(0, root)
    ctx = jobs_cc.start(root, tools, engine, jobs)
    try:
        mods = {m: importlib.import_module(m) for m in modules}
        tests = {}

        def test(p):
            # one at a time: constructing them is not what is examined here
            k = p['mod'], p['cls'], p['variant'], p['link']
            if k not in tests:
                b = jobs_cc.make(ctx, comp, 'static', variants[p['variant']])
                kw = {'libpaths': [os.path.dirname(tools) + '/lib'], 'external_libs': ['probe']} if p['link'] else {}
                tests[k] = getattr(mods[p['mod']], p['cls'])(b, **kw)
            return tests[k]

        def probe(p):
            t = test(p)
            try:
                if p['what'] == 'field':
                    return plain(getattr(t, p['field']))
                if p['what'] == 'get':
                    return plain(t.get(p['field']))
                if p['what'] == 'fields':
                    return [n for n, f in t.fields()]
                return [[n, plain(v)] for n, v in getattr(t, p['what'])()]
            except Exception as e:
                return ['raised', repr(e)]

        for p in probes:
            test(p)
        if jobs > 1:
            return list(ctx.scheduler.map(probe, probes))
        return [probe(p) for p in probes]
    finally:
        jobs_db.close_session(ctx)


def direct(root, tools, engine, jobs, comp, variants, tasks):
    ctx = jobs_cc.start(root, tools, engine, jobs)
    try:
        builders = [jobs_cc.make(ctx, comp, 'static', v) for v in variants]

        def run(t):
            b = builders[t['variant']]
            f = getattr(b, t['what'])
            if 'input' in t['kw']:
                t['kw']['input'] = t['kw']['input'].encode()
            try:
                if t['what'] == 'tempfile_run':
                    try:
                        return [x.decode() for x in f(t['code'], **t['kw'])]
                    except fbuild.ExecutionError as e:
                        return ['failed', e.returncode]
                if t['what'] in ('check_types_exist', 'check_macros_exist', 'check_functions_exist'):
                    r = f(*[tuple(a) if isinstance(a, list) else a for a in t['args']], **t['kw'])
                    return sorted(r)
                return f(*t['args'], **t['kw'])
            except Exception as e:
                return ['raised', repr(e)]

        if jobs > 1:
            return list(ctx.scheduler.map(run, tasks))
        return [run(t) for t in tasks]
    finally:
        jobs_db.close_session(ctx)


def records(items):
    """Equality, hashing and repr of the results."""
    import fbuild.config.c as c

    def build(i):
        if isinstance(i, list):
            kind, args = i
            return getattr(c, kind)(*[build(a) for a in args])
        if isinstance(i, dict):
            return tuple(build(a) for a in i['tuple'])
        return i

    first, second = [build(i) for i in items], [build(i) for i in items]
    out = []
    for a in first:
        row = []
        for b in second:
            row.append([a == b, a != b, hash(a) == hash(b)])
        out.append(row)
    scope = {k: getattr(c, k) for k in ('Function', 'Macro', 'Type', 'IntType', 'Struct', 'Variable')}
    return out, [eval(repr(a), scope) == a for a in first]
