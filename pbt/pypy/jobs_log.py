"""Messages logged by generated tasks (C16)."""
import io
import os
import sys
import threading
import time

import fbuild.console
import fbuild.sched


def run(root, case):
    os.chdir(root)
    enc = case['encoding']
    real = sys.stdout
    sys.stdout = io.TextIOWrapper(open('console', 'wb'), encoding=enc, newline='')
    trouble = []
    calls = []          # in the order they were made
    try:
        log = fbuild.console.Log(open('log', 'w', encoding=enc, newline='') if case['file'] else None,
                                 verbose=case['verbose'], nocolor=case['nocolor'],
                                 threadcount=case['threads'], show_threads=case['show'])
        sched = fbuild.sched.Scheduler(case['threads'], logger=log)
        lock = threading.Lock()

        def step(s):
            kw = dict(s[2])
            with lock:
                calls.append(s[1])
            if s[0] == 'log':
                log.log(s[3], **kw)
            elif s[0] == 'write':
                log.write(s[3], **kw)
            elif s[0] == 'check':
                log.check(s[3], *s[4], **kw)
            elif s[0] in ('passed', 'failed'):
                getattr(log, s[0])(*s[3], **kw)
            elif s[0] == 'flush':
                log.flush()

        def steps(ss):
            for s in ss:
                if s[0] == 'int':
                    with sched.interruptible() as interrupt:
                        for _ in range(s[1]):
                            interrupt()
                            time.sleep(0.0003)
                        for t in s[2]:
                            step(t)
                elif s[0] == 'map':
                    sched.map(steps, s[1])
                elif s[0] == 'raise':
                    raise ValueError(s[1])
                elif s[0] == 'try':
                    try:
                        sched.map(steps, s[1])
                    except ValueError:
                        pass
                else:
                    step(s)

        def client(ss):
            try:
                steps(ss)
            except BaseException as e:
                trouble.append(repr(e))

        old = sys.getswitchinterval() if hasattr(sys, 'getswitchinterval') else None
        try:
            sys.setswitchinterval(1e-5)
        except Exception:
            pass
        ts = [threading.Thread(target=client, args=(ss,)) for ss in case['clients'][1:]]
        for t in ts:
            t.start()
        client(case['clients'][0])
        for t in ts:
            t.join()
        sched.shutdown()
        log.flush()
        if log.file:
            log.file.close()
        sys.stdout.flush()
    finally:
        sys.stdout = real
    res = {'trouble': trouble, 'calls': calls}
    for n in ('console', 'log'):
        res[n] = None
        if os.path.exists(n):
            with open(n, 'rb') as f:
                res[n] = f.read().decode(enc)
    return res
