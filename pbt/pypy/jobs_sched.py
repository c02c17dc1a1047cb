"""The scheduler driven by generated programs (C09, C10)."""
import sys
import threading
import time

import fbuild
import fbuild.sched
from codec import dec, enc

KINDS = {
    'value': lambda k: ValueError(k),
    'error': lambda k: fbuild.Error(k),
    'exit': lambda k: SystemExit(k),
    'stop': lambda k: StopIteration(k),
    'generator': lambda k: GeneratorExit(k),
    'base': lambda k: BaseException(k),
    'queue': lambda k: __import__('queue').Empty(),
    'runtime': lambda k: RuntimeError(k),
}


class Run:
    def __init__(self, threads):
        self.sched = fbuild.sched.Scheduler(threads)
        self.lock = threading.Lock()
        self.events = []
        self.raised = {}
        self.running = None
        self.trouble = []
        self.threads = set()
        self.busy = set()
        self.most = 0

    def event(self, *e):
        with self.lock:
            self.events.append(list(e))

    def critical(self, who, n):
        """No other task may run meanwhile."""
        me = (who, threading.get_ident())
        for _ in range(n):
            if self.running is not None:
                self.trouble.append('%s runs at the same time as %s' % (who, self.running[0]))
            self.running = me
            time.sleep(0)
            if n > 2:
                time.sleep(0.0003)
            if self.running is not me:
                self.trouble.append('%s was interrupted' % who)
            self.running = None

    def which(self, e):
        for k, r in list(self.raised.items()):
            if r is e:
                return k
        return 'not what was raised: %r' % (e,)

    def steps(self, who, steps, values):
        for s in steps:
            if s[0] == 'run':
                self.critical(who, s[1])
            elif s[0] == 'int':
                with self.sched.interruptible() as interrupt:
                    for _ in range(s[1]):
                        interrupt()
                        time.sleep(0.0003)
                    for t in s[2]:
                        if t[0] == 'int':
                            self.steps(who, [t], values)
                        elif t[0] == 'raise':
                            self.fail(who, t)
            elif s[0] == 'raise':
                self.fail(who, s)
            elif s[0] == 'map':
                values.append(self.map(who, s))
            elif s[0] == 'flat':
                values.append(self.flat(who, s))
            elif s[0] == 'try':
                try:
                    values.append(self.map(who, s))
                except BaseException as e:
                    values.append(['caught', self.which(e)])

    def fail(self, who, s):
        e = KINDS[s[1]](who)
        self.raised[who] = e
        raise e

    def item(self, it):
        with self.lock:
            self.events.append(['start', it['id']])
            self.threads.add(threading.get_ident())
        values = []
        self.steps(it['id'], it['steps'], values)
        self.event('end', it['id'])
        return [it['id'], values]

    def map(self, who, s):
        self.event('map', s[3])
        try:
            return self.sched.map(self.item, conv(s[1], s[2]))
        except BaseException:
            self.event('raised', s[3])
            raise

    def flat(self, who, s):
        calls = []

        def f(x):
            calls.append(x)
            time.sleep(0)
            return [x]
        given = [dec(x) for x in s[2]]
        res = self.sched.map(f, conv(s[1], given))
        if len(calls) != len(given):
            self.trouble.append('%s: %d calls for %d items' % (who, len(calls), len(given)))
        if sorted(map(id, calls)) != sorted(map(id, given)) and s[1] != 'keys':
            self.trouble.append('%s: called with other items than given' % who)
        return enc(res)


def conv(form, items):
    if form == 'tuple':
        return tuple(items)
    if form == 'generator':
        return (x for x in items)
    if form == 'iter':
        return iter(items)
    return items


def run(threads, clients):
    sys.setswitchinterval(1e-5)
    r = Run(threads)
    out = [None] * len(clients)

    def client(i):
        res = []
        for it in clients[i]:
            values = []
            try:
                r.steps(it['id'], it['steps'], values)
                res.append(['ok', values])
            except BaseException as e:
                res.append(['exc', r.which(e), values])
        out[i] = res

    ts = [threading.Thread(target=client, args=(i,), daemon=True) for i in range(1, len(clients))]
    ids = set()
    for t in ts:
        t.start()
        ids.add(t.ident)
    client(0)
    ids.add(threading.get_ident())
    for t in ts:
        t.join()
    r.sched.shutdown()
    if r.threads & ids and len(r.threads) > threads:
        r.trouble.append('items ran in the threads of the callers')
    if len(r.threads) > threads:
        r.trouble.append('%d threads ran items' % len(r.threads))
    if r.sched.threadcount:
        r.trouble.append('threads left after shutdown')
    return {'out': out, 'events': r.events, 'trouble': r.trouble}


def run_deps(threads, rounds):
    """map_with_dependencies, several times with one scheduler."""
    sys.setswitchinterval(1e-5)
    sched = fbuild.sched.Scheduler(threads)
    res = []
    for case in rounds:
        lock = threading.Lock()
        events = []
        raised = []
        asked = []

        def boom(x, kind):
            e = KINDS[kind](x)
            raised.append((x, e))
            raise e

        def depends(x):
            with lock:
                asked.append(x)
            if case['delay'].get(x):
                with sched.interruptible():
                    time.sleep(case['delay'][x] * 0.0003)
            if x in case['fail_dep']:
                boom(x, case['fail_dep'][x])
            return conv(case['form'], case['deps'].get(x, []))

        def function(x):
            with lock:
                events.append(['start', x])
            d = case['delay'].get(x)
            if d:
                with sched.interruptible():
                    time.sleep(d * 0.0003)
            for y in case['nested'].get(x, []):
                sched.map(lambda z: z, range(y))
            if x in case['fail']:
                boom(x, case['fail'][x])
            with lock:
                events.append(['end', x])
            return 'r:' + x

        o = {'asked': asked, 'events': events}
        try:
            o['ok'] = sched.map_with_dependencies(depends, function, conv(case['form'] if case['form'] == 'tuple'
                                                                          else 'list', case['srcs']))
        except fbuild.sched.DependencyLoop as e:
            o['loop'] = sorted(sorted(s) for s in e.srcs)
            o['text'] = str(e)
        except BaseException as e:
            o['exc'] = next((k for k, r in list(raised) if r is e), None) or 'other: %r' % (e,)
        with lock:
            o['events'] = list(events)
        o['late'] = []
        res.append((o, events))
    sched.shutdown()
    for o, events in res:
        o['late'] = events[len(o['events']):]
    return [o for o, _ in res]
