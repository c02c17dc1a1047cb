"""C18: the command line runs what it says."""
import os

from hypothesis import strategies as st

from pbt.core import Fail, Part

ID = 'C18'
LEVEL = 'exploration'
TECHNIQUE = ('stateful property-based testing: generated projects and sequences of command lines and edits, against a model '
             'of the targets, the saved databases and the files')
NOTE = ('Random search with shrinking; each command line runs in a process of its own. The projects use cached functions with '
        'source files, registered files and nested calls, which the model follows on the level of functions, as fbuild does.')
RULE = ('A case is a project and a sequence of command lines and edits; non-trivial: four or more commands, one of which '
        'rebuilds, does not save, deletes, dumps or cleans while there is a saved database, and one after it that builds.')
ASSUMPTIONS = ['every edit gives a file a content it never had',
               'a state file is used with one database engine',
               'directories of the log file exist, and the build directory is not a link']
FILES = ['s0', 's1', 's2', 'dir/s3']
ROOTS = ['build', 'build', 'build', 'out/x', '@ROOT/abs']


class Gen:
    def __init__(self, draw):
        self.draw = draw

    def pick(self, *a):
        return self.draw(st.sampled_from(a))

    def n(self, a, b):
        return self.draw(st.integers(a, b))

    def project(self):
        funs = []
        for i in range(self.n(1, 5)):
            kind = self.pick('src', 'ext', 'user', 'user') if i else self.pick('src', 'ext')
            f = {'kind': kind}
            if kind == 'ext':
                f['files'] = [self.pick(*FILES) for _ in range(self.n(0, 2))]
            elif kind == 'user':
                f['calls'] = [self.call(funs) for _ in range(self.n(1, 3))]
            funs.append(f)
        targets = {}
        for t in ['build', 'configure', 'extra', 'two words']:
            if t != 'build' and self.pick(False, True) or t == 'build' and self.n(0, 9):
                body = [['call'] + self.call(funs) for _ in range(self.n(0, 3))]
                if self.n(0, 7) == 0:
                    body.insert(self.n(0, len(body)), ['fail', self.pick('fbuild.Error', 'ValueError', 'SystemExit', 'fbuild.ConfigFailed')])
                targets[t] = body
        return {'funs': funs, 'targets': targets, 'pre': self.pick(False, True), 'post': self.pick(False, True),
                'args': self.pick(None, None, 'new', 'none', 'old'), 'after': self.pick(None, 'new', 'none', 'old')}

    def call(self, funs):
        i = self.n(0, len(funs) - 1)
        c = [i, self.n(0, 1)]
        if funs[i]['kind'] == 'src':
            c.append(self.pick(*FILES))
        return c

    def command(self, p):
        kind = self.pick(*['targets'] * 8, 'dump', 'fun', 'fun', 'file', 'file', 'clean', 'bad')
        names = ['build', 'configure', 'extra', 'two words', 'nothing']
        c = {'kind': kind, 'targets': []}
        if kind == 'targets':
            n = self.n(0, 4)
            for _ in range(n):
                c['targets'].append(self.pick('build', 'build', 'configure', 'install', *names) if self.pick(0, 1)
                                    else self.pick(*(list(p['targets']) or ['build'])))
        elif kind == 'fun':
            c['name'] = self.pick(*['f%d' % i for i in range(len(p['funs']))], 'nothing')
        elif kind == 'file':
            c['name'] = self.pick(*FILES, 'nothing')
        elif kind == 'bad':
            c['how'] = self.pick(['--nothing'], ['-j', 'x'], ['--database-engine=none'], ['--delete-file'])
        if kind in ('dump', 'fun', 'file', 'clean') and self.pick(False, False, True):
            c['targets'] = ['build']
        if self.pick(*[False] * 5, True):
            c['rebuild'] = self.pick('--rebuild', '--configure')
        if self.pick(*[False] * 5, True):
            c['nosave'] = True
        c['opts'] = [o for o in ['--no-color', '--nocolor', '-v', '-vvv', '-j2', '-j5', '--show-threads', '--no-warnings', '--explain-database',
                                 '--log-file=other.log'] if self.n(0, 6) == 0]
        if p['args'] and self.pick(False, True):
            c['mine'] = self.pick('a', '', 'b c')
        c['order'] = self.pick(0, 1)
        return c


@st.composite
def cases(draw):
    g = Gen(draw)
    p = g.project()
    engine = g.pick('pickle', 'sqlite', None)
    place = {'engine': engine, 'buildroot': g.pick(*ROOTS), 'state': g.pick(None, None, None, 'st.db', 'st/ate.db', '@ROOT/away.db')}
    steps = []
    for _ in range(g.n(1, 9)):
        k = g.n(0, 11)
        if k <= 2:
            steps.append(['edit', g.pick(*FILES)])
        else:
            c = g.command(p)
            w = dict(place)
            if g.n(0, 7) == 0:
                w['buildroot'] = g.pick(*ROOTS)
            elif g.n(0, 9) == 0 and not c.get('rebuild'):
                w['engine'] = g.pick('cache', 'sqlite' if engine != 'sqlite' else 'pickle')
            c['where'] = w
            steps.append(['run', c])
    return {'project': p, 'steps': steps}


def text(p):
    out = ['import builtins, fbuild, fbuild.db, fbuild.target', 'EVENTS = builtins.PBT_EVENTS', '']
    for i, f in enumerate(p['funs']):
        out.append('@fbuild.db.caches')
        if f['kind'] == 'src':
            out.append('def f%d(ctx, k, src: fbuild.db.SRC):' % i)
            out.append('    EVENTS.append(["f%d", k, src])' % i)
            out.append('    return "f%d:%%d:%%s" %% (k, open(src).read())' % i)
        else:
            out.append('def f%d(ctx, k):' % i)
            out.append('    EVENTS.append(["f%d", k])' % i)
            out.append('    r = ["f%d", k]' % i)
            for x in f.get('files', ()):
                out.append('    ctx.db.add_external_dependencies_to_call(srcs=[%r])' % x)
                out.append('    r.append(open(%r).read())' % x)
            for c in f.get('calls', ()):
                out.append('    r.append(f%d(ctx, *%r))' % (c[0], tuple(c[1:])))
            out.append('    return r')
        out.append('')
    for t, body in p['targets'].items():
        if t in ('build', 'configure'):
            out.append('def %s(ctx):' % t)
        else:
            if ' ' in t:
                out.append('@fbuild.target.register(name=%r, help="100%%")' % t)
            else:
                out.append('@fbuild.target.register()')
            out.append('def %s(ctx):' % t.replace(' ', '_'))
        out.append('    EVENTS.append(["target", %r, getattr(ctx.options, "mine", None), getattr(ctx.options, "after", None)])' % t)
        for b in body:
            if b[0] == 'call':
                out.append('    EVENTS.append(["value", f%d(ctx, *%r)])' % (b[1], tuple(b[2:])))
            else:
                out.append('    raise %s("on purpose")' % b[1])
        out.append('')
    out += ['def pre_install(ctx):' if p['pre'] else 'def no_pre_install(ctx):',
            '    EVENTS.append(["pre_install"])',
            'def post_install(ctx):' if p['post'] else 'def no_post_install(ctx):',
            '    EVENTS.append(["post_install"])', '']
    if p['args']:
        out += ['def %s(parser):' % ('pre_options' if p['args'] == 'old' else 'arguments'),
                '    parser.%s("--mine", default="unset", help="mine")' % ('add_option' if p['args'] == 'old' else 'add_argument')]
        if p['args'] == 'new':
            out.append('    return parser')
    if p['after']:
        out += ['def post_options(args):' if p['after'] == 'old' else 'def post_arguments(parser, args):',
                '    args.after = "seen"']
        if p['after'] == 'new':
            out.append('    return args')
    return '\n'.join(out) + '\n'


class Failed(Exception):
    pass


class Db:
    def __init__(self, of=None):
        self.calls = dict(of.calls) if of else {}     # (fun, args) -> ({file: content}, value)
        self.deps = {k: set(v) for k, v in of.deps.items()} if of else {}
        self.files = set(of.files) if of else set()

    def users(self, f):
        seen, todo = {f}, [f]
        while todo:
            x = todo.pop()
            for u, d in self.deps.items():
                if x in d and u not in seen:
                    seen.add(u)
                    todo.append(u)
        return seen

    def delete_function(self, f):
        known = f in self.deps
        for u in self.users(f):
            self.deps.pop(u, None)
            for k in [k for k in self.calls if k[0] == u]:
                del self.calls[k]
        return known

    def delete_file(self, name):
        known = name in self.files
        self.files.discard(name)
        for k, (files, v) in list(self.calls.items()):
            if name in files:
                self.calls[k] = ({**files, name: None}, v)
        return known


class Model:
    def __init__(self, case, root):
        self.p, self.root = case['project'], root
        self.content = {f: 'text of ' + f for f in FILES}
        self.dbs = {}           # path of the state file -> Db
        self.n = 0

    def paths(self, w):
        b = os.path.normpath(os.path.join(self.root, w['buildroot'].replace('@ROOT', self.root)))
        name = w['state'] and w['state'] + '-' + str(w['engine']) if w['state'] else \
            {'sqlite': 'fbuild-state.sqldb'}.get(w['engine'], 'fbuild-state.db')
        return b, os.path.normpath(os.path.join(b, name.replace('@ROOT', self.root)))

    def call(self, db, i, args, up):
        """The value and the registered files of a call."""
        f = self.p['funs'][i]
        name = 'f%d' % i
        if up is not None:
            up.add(name)
        key = (name, tuple(args))
        src = [args[1]] if f['kind'] == 'src' else []
        db.files.update(src)
        if key in db.calls:
            files, value = db.calls[key]
            # looking at the files makes them known again
            db.files.update(files)
            if all(self.content[x] == c for x, c in files.items()):
                return value, set(files) if f['kind'] != 'src' else set()
        self.events.append([name] + list(args))
        deps, ext = set(), set()
        if f['kind'] == 'src':
            value = '%s:%d:%s' % (name, args[0], self.content[args[1]])
        else:
            value = [name, args[0]]
            for x in f.get('files', ()):
                ext.add(x)
                value.append(self.content[x])
            for c in f.get('calls', ()):
                v, e = self.call(db, c[0], c[1:], deps)
                value.append(v)
                ext |= e
        db.deps[name] = db.deps.get(name, set()) | deps
        files = {x: self.content[x] for x in (src or ext)}
        db.files.update(files)
        db.calls[key] = (files, value)
        return value, ext

    def target(self, db, t, c):
        if t == 'install':
            if self.p['pre']:
                self.events.append(['pre_install'])
            if self.p['post']:
                self.events.append(['post_install'])
            return
        if t not in self.p['targets']:
            raise Failed
        self.events.append(['target', t, (c.get('mine', 'unset') if self.p['args'] else None),
                            'seen' if self.p['after'] else None])
        for b in self.p['targets'][t]:
            if b[0] == 'fail':
                raise Failed
            v, _ = self.call(db, b[1], b[2:], None)
            self.events.append(['value', v])

    def run(self, c):
        """(status, events, removed directory or None)"""
        self.events = []
        if c['kind'] == 'bad':
            return 2, [], None
        buildroot, path = self.paths(c['where'])
        if c['kind'] == 'clean':
            self.dbs = {k: v for k, v in self.dbs.items() if not k.startswith(buildroot + '/')}
            return 0, [], buildroot
        cache = c['where']['engine'] == 'cache'
        db = Db() if c.get('rebuild') or cache else Db(self.dbs.get(path))
        status = 0
        if c['kind'] == 'fun':
            status = 0 if db.delete_function(c['name']) else 1
        elif c['kind'] == 'file':
            status = 0 if db.delete_file(c['name']) else 1
        elif c['kind'] == 'targets':
            ts = list(c['targets']) or ['build']
            try:
                if 'install' in ts:
                    if ts[-1] != 'install':
                        raise Failed
                    if not set(ts) - {'configure', 'install'}:
                        ts.insert(ts.index('install'), 'build')
                for t in ts:
                    self.target(db, t, c)
            except Failed:
                status = 1
        if not c.get('nosave') and not cache:
            self.dbs[path] = db
        return status, self.events, None


def argv(c, root):
    w = c['where']
    a = []
    if w['engine']:
        a.append('--database-engine=' + w['engine'])
    if w['buildroot'] != 'build':
        a.append('--buildroot=' + w['buildroot'].replace('@ROOT', root))
    if w['state']:
        a += ['--state-file', w['state'].replace('@ROOT', root) + '-' + str(w['engine'])]
    if c.get('rebuild'):
        a.append(c['rebuild'])
    if c.get('nosave'):
        a.append('--do-not-save-database')
    if 'mine' in c:
        a.append('--mine=' + c['mine'])
    a += c['opts']
    if c['kind'] == 'dump':
        a.append('--dump-state')
    elif c['kind'] == 'fun':
        a.append('--delete-function=' + ('fbuildroot.' + c['name']))
    elif c['kind'] == 'file':
        a += ['--delete-file', c['name']]
    elif c['kind'] == 'clean':
        a.append('--clean')
    elif c['kind'] == 'bad':
        a += c['how']
    return a + c['targets'] if c['order'] == 0 else c['targets'] + a


def tree(d):
    out = {}
    for p, dirs, files in os.walk(d):
        if '__pycache__' in dirs:
            dirs.remove('__pycache__')
        for n in files:
            f = os.path.join(p, n)
            with open(f, 'rb') as fp:
                out[f] = fp.read()
        for n in dirs:
            out[os.path.join(p, n)] = 'dir'
    return out


def run(case, env):
    d = env.scratch()
    try:
        m = Model(case, d)
        for f, c in m.content.items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), 'w') as fp:
                fp.write(c)
        with open(d + '/fbuildroot.py', 'w') as f:
            f.write(text(case['project']))
        os.makedirs(d + '/keep/this')
        with open(d + '/keep/this/file', 'w') as f:
            f.write('keep')
        commands, special, after = 0, False, False
        for n, (op, c) in enumerate(case['steps']):
            if op == 'edit':
                m.n += 1
                m.content[c] = '%d of %s' % (m.n, c)
                with open(os.path.join(d, c), 'w') as fp:
                    fp.write(m.content[c])
                continue
            buildroot, state = m.paths(c['where'])
            had = state in m.dbs
            after |= special and c['kind'] == 'targets'
            special |= had and (c['kind'] not in ('targets', 'bad') or bool(c.get('rebuild') or c.get('nosave')))
            commands += 1
            if os.path.isdir(buildroot) and not os.path.lexists(buildroot + '/link'):
                os.symlink(d + '/keep', buildroot + '/link')
            before = tree(d)
            status, events, gone = m.run(c)
            args = argv(c, d)
            got = env.call('jobs_cli', 'command', root=d, argv=args)
            what = 'command %d, fbuild %s' % (n, ' '.join(args))
            if got['events'] != events:
                raise Fail('%s ran %r, expected %r (status %r, %s)' % (what, got['events'], events, got['status'], got['error'][-800:]))
            if got['status'] != status:
                raise Fail('%s ended with %r, expected %r: %s' % (what, got['status'], status, got['error'][-800:]))
            now = tree(d)
            mine = (buildroot, state) if c['kind'] not in ('clean', 'bad') else ()
            same = {p: v for p, v in before.items()
                    if not any(p == x or p.startswith(x + '/') for x in mine)
                    and not (gone and (p == gone or p.startswith(gone + '/')))}
            new = {p: v for p, v in now.items()
                   if not any(p == x or p.startswith(x + '/') or x.startswith(p + '/') and p not in before for x in mine)}
            if new != same:
                raise Fail('%s changed %s' % (what, sorted(p for p in {**new, **same} if new.get(p) != same.get(p))))
            if c['kind'] not in ('clean', 'bad') and c.get('nosave') and before.get(state) != now.get(state):
                raise Fail('%s changed the database' % what)
        env.label(str(commands) + ' commands')
        env.nontrivial(commands >= 4 and special and after)
    finally:
        env.clean(d)


PARTS = [Part('commands', lambda tier: cases(), run, 2000, 60000)]
