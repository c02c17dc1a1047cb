"""Checks that what the checks need is here: nothing is built outside /verif."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

import hypothesis  # noqa: E402,F401
from pbt import worker  # noqa: E402

w = worker.Worker()
assert w.call('selftest', 'ping', x=1) == 1
w.stop()
print('ready')
