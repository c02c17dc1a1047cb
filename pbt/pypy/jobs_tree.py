import os
import sys

import jobs_db
import treeproj
from jobs_main import run_main


def session(root, engine, program, fail, requests, jobs=1):
    os.chdir(root)
    treeproj.PROGRAM.update(program)
    treeproj.FAIL.update(fail)
    ctx = jobs_db.make_context(engine, jobs)
    try:
        jobs_db.open_session(ctx)
        return [treeproj.request(ctx, r) for r in requests]
    finally:
        jobs_db.close_session(ctx)


def command(root, engine, program, fail, requests, jobs=1):
    """The same through fbuild's command: the first failure ends the build."""
    os.chdir(root)
    treeproj.PROGRAM.update(program)
    treeproj.FAIL.update(fail)
    treeproj.TODO = requests
    treeproj.SEEN = []
    with open('fbuildroot.py', 'w') as f:
        f.write('import rt, treeproj\n'
                'def build(ctx):\n'
                '    for r in treeproj.TODO:\n'
                '        rt.EVENTS.clear()\n'
                '        seen = {"started": rt.EVENTS}\n'
                '        treeproj.SEEN.append(seen)\n'
                '        try:\n'
                '            if r[0] == "call":\n'
                '                seen["ok"] = treeproj.NODES[r[1][0]](ctx, r[1][1])\n'
                '            else:\n'
                '                seen["ok"] = ctx.scheduler.map(\n'
                '                    lambda c: treeproj.NODES[c[0]](ctx, c[1]), r[1])\n'
                '        finally:\n'
                '            seen["started"] = [k for ev, k in rt.EVENTS if ev == "S"]\n')
    status, out = run_main(['fbuild', '--database-engine=' + engine, '-j%d' % jobs, '--no-color'])
    return {'status': status, 'error': out, 'seen': treeproj.SEEN,
            'raised': [k for k, e in treeproj.RAISED]}
