"""C16: log output is complete and never torn."""
import re

from hypothesis import strategies as st

from pbt.core import Fail, Part

ID = 'C16'
LEVEL = 'exploration'
TECHNIQUE = ('property-based testing of schedules: generated tasks that log, wait and map, against the lines each of them '
             'is to write, and for one thread against the exact output')
NOTE = ('Random search with shrinking; the interleavings are those of real threads with generated waits and a very short '
        'switch interval. With several threads, tasks and callers end the lines they start, and only tasks leave a line '
        'open while they do something else.')
RULE = ('A case is a logger, a number of threads and the programs of one or more callers; non-trivial: two or more threads, '
        'and four or more messages, one of them left open over a wait or a map.')
ASSUMPTIONS = ['nothing is written unbuffered', 'a task ends the line that it has started']

COLORS = [None, None, 'red', 'green', 'compile', 'link', 'mauve', 'cyan']
CODE = {'red': 31, 'green': 32, 'yellow': 33, 'cyan': 36, 'compile': 32, 'link': 36}


class Gen:
    def __init__(self, draw, threads, fails):
        self.draw, self.n, self.threads, self.fails = draw, 0, threads, fails

    def pick(self, *a):
        return self.draw(st.sampled_from(a))

    def text(self, open_ok=False):
        self.n += 1
        t = '<%d>' % self.n + self.pick('', 'x', 'some words', '\xe9', '\u20ac', '\udc80', 'a%s{}', 'y' * 40, '\x1b', 'a\tb')
        if self.pick(False, False, False, True):
            self.n += 1
            t += '\n<%d>' % self.n
        return t

    def kw(self, color=True):
        kw = {}
        if self.pick(True, False):
            kw['verbose'] = self.draw(st.integers(-1, 3))
        if color and self.pick(True, False):
            kw['color'] = self.pick(*COLORS)
        return kw

    def message(self):
        """A call that leaves no line open."""
        self.n += 1
        op = self.pick('log', 'log', 'check', 'passed', 'failed', 'write', 'blank')
        me = 'm%d' % self.n
        if op == 'log':
            return ['log', me, self.kw(), self.text()]
        if op == 'check':
            return ['check', me, self.kw(), self.text(), [self.text()]]
        if op == 'write':
            return ['write', me, self.kw(False), self.text() + '\n']
        if op == 'blank':
            return ['log', me, self.kw(False), '']
        return [op, me, self.kw(), self.pick([], [self.text()])]

    def wait(self, depth, task):
        if depth > 0 and self.pick(True, False, False):
            items = [self.steps(depth - 1) for _ in range(self.pick(1, 2, 3))]
            return [self.pick('map', 'map', 'try') if self.fails else 'map', items]
        return ['int', self.draw(st.integers(0, 3)), [self.message()] if self.pick(True, False) and task else []]

    def steps(self, depth, task=True):
        out = []
        for _ in range(self.draw(st.integers(0 if task else 1, 4))):
            k = self.draw(st.integers(0, 9))
            if k <= 3:
                out.append(self.message())
            elif k <= 5 and (task or self.threads == 1):
                # a line that is ended later, and what happens until then
                self.n += 1
                me = 'm%d' % self.n
                kw = self.kw()
                if self.pick(True, False):
                    out.append(['check', me, kw, self.text(), []])
                else:
                    out.append(['write', me, kw, self.text()])
                for _ in range(self.draw(st.integers(0, 2))):
                    w = self.wait(depth, task)
                    if w[0] == 'int':
                        w = ['int', w[1], []]
                    out.append(w)
                self.n += 1
                v = kw.get('verbose', 0)
                out.append([self.pick('passed', 'failed', 'log'), 'm%d' % self.n, {'verbose': v}, [self.text()]])
                if out[-1][0] == 'log':
                    out[-1][3] = out[-1][3][0]
            elif k == 6 and task and self.fails and self.pick(True, False, False):
                out.append(['raise', 'x'])
                break
            else:
                out.append(self.wait(depth, task))
        return out


@st.composite
def cases(draw):
    threads = draw(st.sampled_from([1, 2, 2, 3, 4]))
    g = Gen(draw, threads, draw(st.sampled_from([False, False, True])))
    clients = [g.steps(2, False) for _ in range(g.pick(1, 1, 2) if threads > 1 else 1)]
    return {'threads': threads, 'verbose': g.pick(-1, 0, 0, 1, 2), 'nocolor': g.pick(False, True, False),
            'show': g.pick(False, False, True), 'file': g.pick(True, True, True, False),
            'encoding': g.pick('utf-8', 'utf-8', 'ascii', 'latin-1'), 'clients': clients}


class Model:
    def __init__(self, case):
        self.case = case
        self.color = not case['nocolor']
        self.tasks = []            # [pieces of the console, pieces of the file] of every task
        self.maxlen = 25
        self.byid = {}

    def esc(self, s):
        return s.encode(self.case['encoding'], 'backslashreplace').decode(self.case['encoding'])

    def put(self, to, msg, color=None, verbose=0):
        msg = self.esc(msg)
        to[1].append(msg)
        if verbose <= self.case['verbose']:
            if self.color and color in CODE:
                msg = '\x1b[01;%dm%s\x1b[0m' % (CODE[color], msg)
            to[0].append(msg)

    def message(self, s):
        """What a call writes: [console pieces, file pieces]."""
        op, me, kw = s[:3]
        v, c = kw.get('verbose', 0), kw.get('color')
        to = [[], []]
        if op == 'log':
            self.put(to, s[3], c, v)
            self.put(to, '\n', None, v)
        elif op == 'write':
            self.put(to, s[3], c, v)
        elif op in ('passed', 'failed'):
            msg = s[3][0] if s[3] else {'passed': 'ok', 'failed': 'failed'}[op]
            self.put(to, msg, kw.get('color', {'passed': 'green', 'failed': 'yellow'}[op]), v)
            self.put(to, '\n', None, v)
        elif op == 'check':
            msg = ('@THREAD: ' if self.case['show'] else '') + s[3] + '@PAD: '
            if s[4]:
                self.put(to, msg, None, v)
                self.put(to, s[4][0], c, v)
                self.put(to, '\n', None, v)
            else:
                self.put(to, msg, c, v)
                self.put(to, '\n', None, v + 1)
        self.byid[me] = to
        return to

    def walk(self, steps):
        """Collect what a task writes."""
        mine = [[], []]
        self.tasks.append(mine)
        self.into(steps, mine)

    def into(self, steps, mine):
        for s in steps:
            if s[0] == 'int':
                self.into(s[2], mine)
            elif s[0] in ('map', 'try'):
                for it in s[1]:
                    self.walk(it)
                if s[0] == 'map' and any(raises(it) for it in s[1]):
                    return
            elif s[0] == 'raise':
                return
            else:
                to = self.message(s)
                mine[0] += to[0]
                mine[1] += to[1]


def raises(steps):
    return any(s[0] == 'raise' or s[0] == 'map' and any(map(raises, s[1])) for s in steps)


def clean(s):
    """Without what depends on the order of the calls: padding and thread names."""
    s = s.replace('@PAD: ', '@: ').replace('@THREAD: ', '')
    return s


def pieces(text):
    """The lines as compared: blanks before ': ' do not count, nor do thread names."""
    text = re.sub(r'(?m)(^|\x1b\[01;\d\dm)(MainThread|Thread-\d+( \(\w+\))?) *: (?=<)', r'\1', text)
    return re.sub(r' *: ', ': ', text)


def exact(case, m, out):
    """With one thread, the output in the order of the calls."""
    console, log = '', ''
    for me in out['calls']:
        s = FIND[me]
        to = m.byid[me]
        pad = ''
        if s[0] == 'check':
            n = len(s[3])
            if n >= m.maxlen:
                m.maxlen = min(n + 1, 40)
            pad = ' ' * max(0, m.maxlen - n)
        console += ''.join(to[0]).replace('@PAD', pad)
        log += ''.join(to[1]).replace('@PAD', pad)
    return console, log


FIND = {}


def index(steps):
    for s in steps:
        if s[0] == 'int':
            index(s[2])
        elif s[0] in ('map', 'try'):
            for it in s[1]:
                index(it)
        elif s[0] != 'raise':
            FIND[s[1]] = s


def run(case, env):
    d = env.scratch()
    try:
        out = env.call('jobs_log', 'run', root=d, case=case, timeout=30)
        m = Model(case)
        for ss in case['clients']:
            m.walk(ss)
        fails = "['raise'" in str(case['clients'])
        if out['trouble'] and not any(raises(ss) for ss in case['clients']):
            raise Fail('; '.join(out['trouble']))
        FIND.clear()
        for ss in case['clients']:
            index(ss)
        streams = [('console', 0, out['console'])] + ([('log', 1, out['log'])] if case['file'] else [])
        if not case['file'] and out['log'] is not None:
            raise Fail('a log file was written')
        if case['threads'] == 1 and len(case['clients']) == 1 and not case['show']:
            for (name, i, got), want in zip(streams, exact(case, m, out)):
                if got != want:
                    raise Fail('the %s is %r, expected %r' % (name, got, want))
        calls = set(out['calls'])
        if not fails and calls != set(FIND):
            raise Fail('harness: calls %s not made' % (set(FIND) - calls))
        if case['threads'] > 1:
            for name, i, got in streams:
                got = pieces(got)
                # every message as often as it was logged
                for me in FIND:
                    for tag in re.findall(r'<\d+>', str(FIND[me][3:])):
                        n = got.count(tag)
                        want = sum(p.count(tag) for p in m.byid.get(me, ([], []))[i]) if me in calls else 0
                        if n != want:
                            raise Fail('%s is %d times on the %s, expected %d: %r' % (tag, n, name, want, got))
                if fails:
                    # which calls of the cancelled tasks were made is not known
                    continue
                lines = got.split('\n')
                where = {}
                for n, l in enumerate(lines):
                    where.setdefault(l, []).append(n)
                for t in m.tasks:
                    text = pieces(clean(''.join(t[i])).replace('@', ''))
                    at = -1
                    mine = text.split('\n')
                    if mine[-1]:
                        raise Fail('harness: open line %r' % text)
                    for l in mine[:-1]:
                        if not re.search(r'<\d+>', l):
                            continue
                        if len(where.get(l, [])) != 1:
                            raise Fail('the line %r is torn on the %s: %r' % (l, name, got))
                        if where[l][0] < at:
                            raise Fail('the line %r comes too early on the %s: %r' % (l, name, got))
                        at = where[l][0]
                want = sum(''.join(t[i]).count('\n') for t in m.tasks)
                if len(lines) - 1 != want:
                    raise Fail('the %s has %d lines, expected %d: %r' % (name, len(lines) - 1, want, got))
        if case['nocolor'] and re.search(r'\x1b\[', out['console']) or '\x1b[' in (out['log'] or ''):
            raise Fail('there are colours in %r' % (out,))
        env.label('%d threads' % case['threads'], 'verbose %d' % case['verbose'])
        text = str(case['clients'])
        env.nontrivial(case['threads'] > 1 and len(FIND) >= 4 and (OPEN.search(text) is not None))
    finally:
        env.clean(d)


OPEN = re.compile(r"\], \['(int|map|try)'[^\[]*\[.*'(passed|failed|log)'")
PARTS = [Part('log', lambda tier: cases(), run, 2000, 50000)]
