"""Installs by an unprivileged user (C17)."""
import os
import sys

import fbuild.context
import fbuild.install
from fbuild.path import Path
from jobs_main import run_main

NOBODY = 65534


def _arg(v, as_path):
    return Path(v) if as_path else v


def _mark(ctx, case, requests, root):
    ctx.install_destdir = case['destdir'].replace('@ROOT', root)
    ctx.install_prefix = _arg(case['prefix'], case['paths'])
    for r in requests:
        kw = {}
        if r['rename'] is not None:
            kw['rename'] = r['rename']
        if r['perms'] is not None:
            kw['perms'] = r['perms']
        src = r['source'] if not r['abs'] else root + '/' + r['source']
        ctx.install(_arg(src, case['paths']), _arg(r['subdir'], case['paths']), **kw)


def session(root, case, requests):
    os.chdir(root)
    os.umask(0o022)
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    os.environ['HOME'] = root
    how = case['how']
    if how == 'pkexec':
        os.environ['PATH'] = root + '/tools:' + os.environ['PATH']
        os.environ['PYTHONPATH'] = os.path.dirname(os.path.dirname(fbuild.__file__))
    if how == 'direct':
        ctx = fbuild.context.make_default_context(['--buildroot=build'])
        ctx.logger.file = None
        try:
            _mark(ctx, case, requests, root)
            fbuild.install.Installer(ctx).install()
        finally:
            ctx.scheduler.shutdown()
        return {'status': 0, 'error': ''}
    with open('fbuildroot.py', 'w') as f:
        f.write('import jobs_install\n'
                'def build(ctx):\n'
                '    jobs_install._mark(ctx, *jobs_install.TODO)\n')
    global TODO
    TODO = case, requests, root
    sys.modules['jobs_install'] = sys.modules[__name__]
    status, error = run_main(['fbuild', '--no-color'] + ['install'])
    return {'status': status, 'error': error}
