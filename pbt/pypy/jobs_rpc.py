"""Calls of a service thread from generated clients (C23)."""
import os
import signal
import sys
import threading
import time

import fbuild.rpc


class Same:
    def __eq__(self, other):
        return True

    __hash__ = object.__hash__


VALUES = {
    'none': lambda: None, 'false': lambda: False, 'exception': lambda: ValueError('a value'),
    'exit': lambda: SystemExit(0), 'class': lambda: KeyError, 'same': Same, 'list': lambda: [], 'ni': lambda: NotImplemented,
    'refused': lambda: fbuild.rpc.RPCNotRunning('a value'),
}
ERRORS = {
    'value': lambda: ValueError('x'), 'stop': lambda: StopIteration(), 'queue': lambda: __import__('queue').Empty(),
    'assert': lambda: AssertionError(), 'own': lambda: fbuild.rpc.RPCNotRunning('raised by the function'),
    'system': lambda: SystemExit(3), 'generator': lambda: GeneratorExit(), 'base': lambda: BaseException('x'),
}


class Run:
    def __init__(self, daemon):
        self.lock = threading.Lock()
        self.log = []
        self.served = []        # calls in the order they were executed
        self.objects = {}
        self.trouble = []
        self.now = None
        self.thread = None
        self.gates = {}
        self.caught = threading.Event()
        self.rpc = fbuild.rpc.RPC(self.handler)
        self.rpc.daemon = daemon

    def event(self, *e):
        with self.lock:
            self.log.append(list(e))

    def handler(self, me, spec, *, kw=None):
        if kw != 'kw':
            self.trouble.append('the arguments of %s are not passed on' % me)
        if self.now is not None:
            self.trouble.append('%s runs while %s does' % (me, self.now))
        self.now = me
        if self.thread is None:
            self.thread = threading.get_ident()
        if self.thread != threading.get_ident():
            self.trouble.append('%s runs in another thread' % me)
        self.event('run', me)
        self.served.append(me)
        try:
            if spec.get('gate'):
                self.event('at gate', me)
                self.gates[spec['gate']].wait(10)
            if spec.get('interrupt'):
                # only while it waits for the answer: elsewhere the interpreter
                # may leave a lock locked
                main = threading.main_thread()
                if all(self.blocked(main, 0.5) and not time.sleep(0.004) for _ in range(4)):
                    os.kill(os.getpid(), signal.SIGINT)
                    self.caught.wait(5)
            for _ in range(spec.get('delay', 0)):
                time.sleep(0.0003)
            if 'raise' in spec:
                e = self.objects[me] = ERRORS[spec['raise']]()
                raise e
            v = self.objects[me] = VALUES[spec['value']]()
            return v
        finally:
            self.now = None
            self.event('done', me)

    def call(self, me, spec):
        self.event('call', me)
        try:
            v = self.rpc.call(me, spec, kw='kw')
            o = 'value' if me in self.objects and v is self.objects[me] else 'wrong value %r' % (v,)
        except KeyboardInterrupt as e:
            o = 'interrupted'
            self.event('end', me, o)
            self.caught.set()
            return
        except BaseException as e:
            if me in self.objects and e is self.objects[me]:
                o = 'error'
            elif isinstance(e, fbuild.rpc.RPCNotRunning):
                o = 'refused'
            else:
                o = 'wrong exception %r' % (e,)
        self.event('end', me, o)

    def steps(self, ss):
        for s in ss:
            if s[0] == 'call':
                self.call(s[1], s[2])
            elif s[0] == 'join':
                self.event('joining', s[1])
                self.rpc.join(*s[2])
                self.event('joined', s[1], self.rpc in threading.enumerate())
            elif s[0] == 'pause':
                for _ in range(s[1]):
                    time.sleep(0.0003)

    def blocked(self, t, limit):
        """Whether the thread waits for an answer: in some wait, below the call."""
        end = time.monotonic() + limit
        seen = 0
        while time.monotonic() < end:
            f = sys._current_frames().get(t.ident)
            waits = f is not None and f.f_code.co_name in ('wait', 'get')
            below = False
            while waits and f is not None and not below:
                below = f.f_code.co_filename.endswith('/fbuild/rpc.py')
                f = f.f_back
            seen = seen + 1 if below else 0
            if seen == 3:
                return True
            time.sleep(0.001)
        return False


def _result(r):
    return {'log': r.log, 'trouble': r.trouble, 'alive': r.rpc in threading.enumerate()}


def _quiet():
    sys.setswitchinterval(1e-5)
    threading.excepthook = lambda a: None


def clients(case):
    """The first client is the main thread, which may be interrupted."""
    _quiet()
    signal.signal(signal.SIGINT, signal.default_int_handler)
    r = Run(case['daemon'])
    if case['early']:
        r.steps(case['early'])
    r.rpc.start()
    ts = [threading.Thread(target=r.steps, args=(ss,)) for ss in case['clients'][1:]]
    for t in ts:
        t.start()
    r.steps(case['clients'][0])
    for t in ts:
        t.join()
    r.event('all ended')
    r.steps(case['late'])
    return _result(r)


def ending(case):
    """Calls wait behind one that is being served when the service is ended."""
    _quiet()
    r = Run(True)
    r.gates['g'] = threading.Event()
    r.rpc.start()
    first = threading.Thread(target=r.steps, args=([['call', 'first', dict(case['first'], gate='g')]],))
    first.start()
    end = time.monotonic() + 5
    while ['at gate', 'first'] not in r.log and time.monotonic() < end:
        time.sleep(0.0005)
    waiting = []
    ts = [first]
    for n, ss in enumerate(case['waiting']):
        t = threading.Thread(target=r.steps, args=(ss,))
        t.start()
        ts.append(t)
        if r.blocked(t, 0.5):
            waiting.append(ss[0][1])
    r.event('ending', waiting)
    for n, ss in enumerate(case['joins']):
        t = threading.Thread(target=r.steps, args=([['join', 'j%d' % n, ss]],))
        t.start()
        ts.append(t)
    time.sleep(case['pause'] * 0.001)
    for ss in case['late']:
        t = threading.Thread(target=r.steps, args=(ss,))
        t.start()
        ts.append(t)
    time.sleep(case['pause2'] * 0.001)
    r.event('open')
    r.gates['g'].set()
    for t in ts:
        t.join()
    r.event('all ended')
    r.steps([['join', 'last', []], ['call', 'very last', {'value': 'none'}]])
    return _result(r)
