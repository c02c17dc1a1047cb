"""Platform options, programs and versions (C20)."""
import os

import fbuild
import fbuild.builders
import fbuild.builders.platform as P
import fbuild.context
import jobs_db
from codec import dec, enc
from fbuild.path import Path


def parse(platform, options, kwargs):
    """One call, in this process."""
    platform, options, kwargs = dec(platform), dec(options), dec(kwargs)
    P.parse_platform_options(None, platform, options, kwargs)
    again = dec(enc(kwargs))
    return {'kwargs': enc(again), 'options': enc(options), 'platform': enc(platform)}


def session(root, engine, calls):
    import platproj
    os.chdir(root)
    ctx = jobs_db.make_context(engine)
    out = []
    options = {}
    try:
        jobs_db.open_session(ctx)
        tool = platproj.Tool(ctx)
        for c in calls:
            kw = dec(c['kwargs'])
            key = repr(c['options'])
            # the same object, as a build script would pass it
            opts = options.setdefault(key, dec(c['options']))
            if c['platform'] is not None:
                kw['platform'] = dec(c['platform'])
            given = enc(kw)
            del platproj.RUNS[:]
            if c['fn'] == 'function':
                v = platproj.function(ctx, c['src'], platform_options=opts, **kw)
            else:
                v = getattr(tool, c['fn'])(c['src'], platform_options=opts, **kw)
            out.append({'value': enc(v), 'ran': len(platproj.RUNS), 'same': enc(kw) == given, 'options': enc(opts)})
    finally:
        jobs_db.close_session(ctx)
    return out


def _ctx(root):
    os.chdir(root)
    ctx = jobs_db.make_context('cache')
    jobs_db.open_session(ctx)
    return ctx


def find(root, names, paths, path):
    ctx = _ctx(root)
    try:
        if path is not None:
            os.environ['PATH'] = path
        names = dec(names)
        if paths is not None:
            paths = [Path(p) if i % 2 else p for i, p in enumerate(paths)]
        try:
            p = fbuild.builders.find_program(ctx, names, **({} if paths is None else {'paths': paths}))
        except fbuild.builders.MissingProgram as e:
            return ['missing', str(e)]
        return ['found', str(p), isinstance(p, Path)]
    finally:
        jobs_db.close_session(ctx)


def versions(root, cases):
    ctx = _ctx(root)
    out = []
    try:
        for version, reqs in cases:
            try:
                fbuild.builders.check_version(ctx, 'tool', lambda: version, **{k: tuple(v) for k, v in reqs.items()})
                out.append(None)
            except fbuild.ConfigFailed as e:
                out.append(str(e))
            except Exception as e:
                out.append(repr(e))
    finally:
        jobs_db.close_session(ctx)
    return out


NAMES = ['obj_suffix', 'static_obj_suffix', 'static_lib_prefix', 'static_lib_suffix', 'shared_obj_suffix', 'shared_lib_prefix',
         'shared_lib_suffix', 'exe_suffix', 'runtime_env_libpath']


def guess(root, uname, arch):
    ctx = _ctx(root)
    try:
        os.environ['PATH'] = root + '/bin:/bin:/usr/bin'
        try:
            p = P.guess_platform(ctx, arch) if arch is not None else P.guess_platform(ctx)
        except P.UnknownPlatform as e:
            return ['unknown', str(e)]
        return ['platform', sorted(p), {n: getattr(P, n)(ctx, p) for n in NAMES},
                {n: getattr(P, n)(ctx) for n in NAMES} if arch is None else None]
    finally:
        jobs_db.close_session(ctx)
