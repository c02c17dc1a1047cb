"""C and C++ projects (C21)."""
import importlib
import os

import fbuild
import jobs_db
from codec import dec, enc

MODULES = {'gcc': 'fbuild.builders.c.gcc', 'g++': 'fbuild.builders.cxx.gxx'}


def start(root, tools, engine, jobs):
    os.chdir(root)
    os.environ['PATH'] = tools + ':/usr/bin:/bin'
    os.environ['CCLOG'] = root + '/cclog'
    ctx = jobs_db.make_context(engine, jobs)
    jobs_db.open_session(ctx)
    return ctx


def make(ctx, comp, kind, opts):
    return getattr(importlib.import_module(MODULES[comp]), kind)(ctx, **{k: list(v) for k, v in opts.items()})


def prepare(root, tools, engine, comp, variants):
    ctx = start(root, tools, engine, 1)
    try:
        for opts in variants:
            for kind in ('static', 'shared'):
                make(ctx, comp, kind, opts)
    finally:
        jobs_db.close_session(ctx)


def session(root, tools, engine, jobs, comp, variants, targets):
    ctx = start(root, tools, engine, jobs)
    out, made, builders = [], {}, {}
    try:
        for t in targets:
            if any(l not in made for l in t['libs']):
                out.append(['skip'])
                continue
            key = t['kind'], t['variant']
            try:
                if key not in builders:
                    builders[key] = make(ctx, comp, t['kind'], variants[t['variant']])
                b = builders[key]
                kw = {'libs': [made[l] for l in t['libs']], 'external_libs': list(t['external'])}
                ckw = {'includes': list(t['includes']), 'macros': list(t['macros']), 'warnings': list(t['warnings'])}
                if t['how'] == 'steps':
                    objs = b.build_objects(list(t['srcs']), flags=list(t['cflags']), buildroot=ctx.buildroot / 'obj' / t['dst'], **ckw)
                    r = (b.link_lib if t['lib'] else b.link_exe)(t['dst'], objs, flags=list(t['lflags']), **kw)
                else:
                    r = (b.build_lib if t['lib'] else b.build_exe)(t['dst'], list(t['srcs']), cflags=list(t['cflags']),
                                                                    lflags=list(t['lflags']), **kw, **ckw)
            except fbuild.ExecutionError as e:
                out.append(['error', str(e)[-300:] + (e.stderr or b'').decode('utf-8', 'replace')[-600:]])
                continue
            made[t['name']] = r
            if t['lib']:
                out.append(['ok', str(r)])
                continue
            try:
                stdout, stderr = b.run([r], quieter=1)
                out.append(['ok', str(r), stdout.decode()])
            except fbuild.ExecutionError as e:
                out.append(['ok', str(r), 'cannot run: %s' % (e.stderr or b'').decode('utf-8', 'replace')[-600:]])
    finally:
        jobs_db.close_session(ctx)
    return out
