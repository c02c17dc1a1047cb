"""Text and file builders (C19)."""
import os
import re

import fbuild.builders.file as F
import fbuild.builders.text as T
import jobs_db
from codec import dec, enc
from fbuild.path import Path

NOBODY = 65534


def text(root, engine, steps):
    os.chdir(root)
    ctx = jobs_db.make_context(engine)
    out = []
    try:
        jobs_db.open_session(ctx)
        for s in steps:
            kw = {} if s['buildroot'] is None else {'buildroot': Path(s['buildroot'])}
            try:
                r = getattr(T, s['fn'])(ctx, (Path if s['path'] else str)(s['dst']), (Path if s['path'] else str)(s['src']),
                                        dec(s['patterns']), **kw)
                out.append(['ok', str(r), isinstance(r, Path)])
            except Exception as e:
                out.append(['error', type(e).__name__, str(e)])
    finally:
        jobs_db.close_session(ctx)
    return out


def files(root, engine, steps):
    os.chdir(root)
    os.umask(0o022)
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    ctx = jobs_db.make_context(engine)
    out = []
    try:
        jobs_db.open_session(ctx)
        for s in steps:
            P = Path if s['path'] else str
            try:
                if s['fn'] == 'regex':
                    r = F.copy_regex(ctx, srcdir=P(s['srcdir']), dstdir=P(s['dst']), src_pattern=s['pattern'], dst_pattern=s['to'],
                                     **s['more'])
                    out.append(['ok', sorted(str(x) for x in r), all(isinstance(x, Path) for x in r)])
                else:
                    r = getattr(F, s['fn'])(ctx, P(s['src']), P(s['dst']))
                    out.append(['ok', str(r), isinstance(r, Path)])
            except Exception as e:
                out.append(['error', type(e).__name__, str(e)])
    finally:
        jobs_db.close_session(ctx)
    return out
