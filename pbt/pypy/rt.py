"""Run-time support for generated projects (fbproj.py), in the worker."""
import hashlib
import os
import threading

from codec import enc

TRACE = []          # every body that started, in order
DONE = []           # every body that finished
EVENTS = []         # both: ['S', key] and ['D', key]
LOCK = threading.Lock()
YIELD = None        # set by the schedule controller
CTX = None
ATOMIC = False      # replace output files in one step (set by jobs_kill)


class BuildErr(Exception):
    pass


def key(name, args):
    return name + repr(enc(args))


def short(x):
    return hashlib.md5(x.encode()).hexdigest()[:12]


def out(tag, *vals):
    return 'build/%s-%s.out' % (tag, short(repr([enc(v) for v in vals])))


def tagged(tag):
    # a decorator that only marks the function
    def mark(f):
        f.tag = tag
        return f
    return mark


class Acc:
    def __init__(self, name, args):
        self.key = key(name, args)
        self.name = name
        self.items = [self.key]
        with LOCK:
            TRACE.append(self.key)
            EVENTS.append(['S', self.key])

    def add(self, v):
        self.items.append(repr(enc(v)))

    def read(self, path):
        with open(path) as f:
            s = f.read()
        self.items.append('r:%s:%s' % (path, s))
        if 'ERR' in s:
            raise BuildErr('%s reads %s' % (self.name, path))
        return s

    def readall(self, paths):
        for p in paths:
            self.read(p)

    def ext(self, ctx, path, *dsts):
        s = self.read(path)
        ctx.db.add_external_dependencies_to_call(srcs=[path], dsts=dsts)
        return s

    def dep(self, ctx, triple):
        res, srcs, dsts = triple
        ctx.db.add_external_dependencies_to_call(srcs=srcs, dsts=dsts)
        self.value(res)

    def value(self, res):
        self.add(res)
        for p in ([res] if isinstance(res, str) else res if isinstance(res, list) else []):
            if isinstance(p, str) and p.startswith('build/'):
                self.read(p)

    def point(self):
        if YIELD is not None:
            YIELD(self)

    def token(self):
        return short('|'.join(self.items))

    def write(self, *paths):
        t = self.token()
        for i, p in enumerate(paths):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p + '.part' if ATOMIC else p, 'w') as f:
                f.write('%s%d' % (t, i))
            if ATOMIC:
                os.rename(p + '.part', p)
        return paths

    def done(self, v):
        with LOCK:
            DONE.append(self.key)
            EVENTS.append(['D', self.key])
        return v
