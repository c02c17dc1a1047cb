"""Helper of the demonstrations: builds in a scratch directory, each in a process of its own."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

RUN = r'''
import json, sys, os
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import fbuild.context
ctx = fbuild.context.make_default_context(sys.argv[2:])
ctx.create_buildroot()
ctx.load_configuration()
try:
    import proj
    r = proj.main(ctx)
finally:
    ctx.save_configuration()
    ctx.db.shutdown()
    ctx.scheduler.shutdown()
with open(sys.argv[1], 'w') as f:
    json.dump(r, f)
'''


class Project:
    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp())

    def __enter__(self):
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.root, name)

    def write(self, name, text, mtime=None):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
        if mtime:
            os.utime(p, (mtime, mtime))

    def read(self, name):
        with open(self.path(name)) as f:
            return f.read()

    def build(self, code=None, engine='pickle', jobs=1, extra=(), env=None, timeout=100):
        """Run main(ctx) of the code in a new process; what it returned."""
        if code is not None:
            self.write('proj.py', code)
        out = self.path('.result')
        p = subprocess.run([sys.executable, '-c', RUN, out, '--database-engine=' + engine,
                            '-j%d' % jobs, '--no-color', *extra], cwd=self.root, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})))
        if p.returncode:
            raise SystemExit('the build failed: ' + p.stdout.decode()[-2000:])
        with open(out) as f:
            return json.load(f)


def expect(got, want, what):
    if got != want:
        raise SystemExit('%s: got %r, expected %r' % (what, got, want))
