"""fbuild commands in a generated project (C18)."""
import builtins
import os

from jobs_main import run_main


def command(root, argv):
    os.chdir(root)
    events = builtins.PBT_EVENTS = []
    status, error = run_main(['fbuild'] + argv)
    return {'status': status, 'error': error, 'events': events}
