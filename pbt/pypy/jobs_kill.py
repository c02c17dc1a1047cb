"""A session whose process is killed at a chosen call that changes a file (C07)."""
import ctypes
import os

import jobs_db
import rt


class Log(list):
    """The events, also written to a file as they come."""

    def __init__(self, fd):
        super().__init__()
        self.fd = fd

    def append(self, e):
        super().append(e)
        os.write(self.fd, ('%s\t%d\t%s\n' % (e[0], STEP[0], e[1])).encode())


STEP = [0]


def session(root, engine, steps, side, at, mode, atomic=False, extra=()):
    """at: index of the call to be killed at, or -1 to only write the log of calls."""
    lib = ctypes.CDLL(None)
    oplog = os.open(os.path.join(side, 'ops'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    evlog = os.open(os.path.join(side, 'events'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    rt.EVENTS = Log(evlog)
    rt.ATOMIC = atomic
    real = jobs_db.run_step

    def run_step(*args):
        o = real(*args)
        rt.EVENTS.append(['N', ''])
        STEP[0] += 1
        return o
    jobs_db.run_step = run_step
    lib.shim_arm(root.encode() + b'/', oplog, ctypes.c_long(at), mode)
    try:
        return jobs_db.session(root, engine, steps, extra=extra)
    finally:
        lib.shim_disarm()
