"""Runs a generated history against fbuild and against the from-scratch evaluator."""
import os

from pbt.core import Fail
from pbt.dbmodel import BuildErr, Eval, enc, fun_id, key, render, static_closure, NODEF
from pbt import worker as W


class History:
    def __init__(self, case, env, root, engine=None):
        self.case, self.env, self.root = case, env, root
        self.engine = engine or case['engine']
        self.files = dict(case['files'])
        self.funcs = [dict(f) for f in case['funcs']]
        self.init_ver = 1
        self.k = 0
        self.now = 0                    # event counter
        self.changed = {}               # path or 'fun:<id>' -> time of the last change
        self.recs = {}                  # call key -> (time, info) of the last completed run
        self.disk_outs = {}             # output -> content expected on disk
        self.stats = {'hits': 0, 'runs': 0, 'calls': 0, 'exc': 0, 'rerun_after_edit': 0}
        for f in sorted(self.files):
            self.write(f, self.files[f], case['policy'])

    # -- the file system -------------------------------------------------------

    def mtime(self, policy):
        self.k += 1
        return {'now': None, 'past': 1.0e9 + 10 * self.k + 0.25, 'back': 1.0e9 - 10 * self.k,
                'future': 4.0e9}[policy]

    def abs(self, p):
        return os.path.join(self.root, p)

    def write(self, path, content, policy):
        os.makedirs(os.path.dirname(self.abs(path)), exist_ok=True)
        with open(self.abs(path), 'w') as f:
            f.write(content)
        m = self.mtime(policy)
        if m is not None:
            os.utime(self.abs(path), (m, m))

    def touch_event(self, what):
        self.changed[what] = self.now

    def lower_fs(self, e):
        """A file edit: update the model, return the operations on the real tree."""
        op = e[0]
        if op == 'file':
            _, path, content, policy = e
            if self.files.get(path) != content:
                self.touch_event(path)
            self.files[path] = content
            return ['file', path, content, self.mtime(policy)]
        if op == 'rewrite':
            _, path, policy = e
            if path not in self.files:
                return None
            return ['file', path, self.files[path], self.mtime(policy)]
        if op == 'touch':
            _, path, policy = e
            if path not in self.files:
                return None
            m = self.mtime(policy)
            return ['utime', path, m] if m is not None else ['file', path, self.files[path], None]
        if op == 'rm':
            if e[1] not in self.files:
                return None
            del self.files[e[1]]
            self.touch_event(e[1])
            return ['rm', e[1]]
        if op == 'rmout':
            outs = sorted(self.disk_outs)
            if not outs:
                return None
            p = outs[e[1] % len(outs)]
            del self.disk_outs[p]
            self.touch_event(p)
            return ['rm', p]
        raise ValueError(e)

    def apply_real(self, op):
        if op is None:
            return
        if op[0] == 'file':
            os.makedirs(os.path.dirname(self.abs(op[1])), exist_ok=True)
            with open(self.abs(op[1]), 'w') as f:
                f.write(op[2])
            if op[3] is not None:
                os.utime(self.abs(op[1]), (op[3], op[3]))
        elif op[0] == 'utime':
            os.utime(self.abs(op[1]), (op[2], op[2]))
        elif op[0] == 'rm':
            if os.path.lexists(self.abs(op[1])):
                os.remove(self.abs(op[1]))

    def edit(self, e):
        self.now += 1
        if e[0] == 'fs':
            self.apply_real(self.lower_fs(e[1]))
        elif e[0] == 'ver':
            if self.funcs[e[1]]['ver'] != e[2]:
                self.fun_changed(e[1])
            self.funcs[e[1]] = {**self.funcs[e[1]], 'ver': e[2]}
        elif e[0] == 'body':
            if self.funcs[e[1]]['body'] != e[2]:
                self.fun_changed(e[1])
            self.funcs[e[1]] = {**self.funcs[e[1]], 'body': e[2]}
        elif e[0] == 'init':
            if self.init_ver != e[1]:
                self.touch_event('fun:K')
                self.touch_event('fun:K2')
            self.init_ver = e[1]
        else:
            raise ValueError(e)

    def fun_changed(self, i):
        f = self.funcs[i]
        if f['kind'] == 'fun':
            self.touch_event('fun:' + f['name'])
        else:
            for c in ('K', 'K2'):
                self.touch_event('fun:%s.%s' % (c, f['name']))

    # -- steps -----------------------------------------------------------------

    def lower_call(self, s, ev, env):
        g = ev.by[s['fn']]
        b = ev.bind(g, s['a'], env) if self.resolvable(s, env) else None
        job = {'op': 'call', 'fn': g['name'], 'args': [], 'kwargs': {}, 'full': s.get('full')}
        if g['kind'] != 'fun':
            job.update(cls=g.get('cls', 'K'), tag=g.get('tag', 'k'), prop=g['kind'] == 'prop')
        bykw = s['style'] == 1 and not s['a'].get('xs')
        for p, d in g['params']:
            if p == 'xs':
                job['args'] += s['a'].get('xs', [])
                continue
            if p == 'kw':
                job['kwargs'].update(s['a'].get('kw', {}))
                continue
            if p not in s['a']:
                bykw = True
                continue
            e = s['a'][p]
            if e[0] == 'out':
                e = ['path', b[p] if b else 'build/none']
            if bykw or p in ('opt', 'odst', 'k'):
                job['kwargs'][p] = e
            else:
                job['args'].append(e)
        return job, b

    @staticmethod
    def resolvable(s, env):
        for e in s['a'].values():
            if isinstance(e, list) and e and e[0] == 'res' and env['#res'].get(e[1]) is None:
                return False
        return True

    def evaluate(self, s, ev, env):
        """('ok', value, infos) or ('exc', type name, infos) of a from-scratch build."""
        g = ev.by[s['fn']]
        try:
            if g['kind'] != 'fun':
                ev.construct(g)
            v, info = ev.apply(g, ev.bind(g, s['a'], env))
            return 'ok', v, info
        except (BuildErr, FileNotFoundError) as e:
            if ev.either:
                return 'exc', 'BuildErr|FileNotFoundError', None
            return 'exc', type(e).__name__, None

    def session(self, sess, jobs=1, extra=(), worker_env=None, **kw):
        """Plan, run and return [(step, plan, observation)]."""
        plan, steps = self.plan(sess)
        obs = self.env.call('jobs_db', 'session', root=self.root, engine=self.engine, steps=steps,
                            jobs=jobs, extra=list(extra), env=worker_env, **kw)
        return list(zip(sess['steps'], plan, obs))

    def plan(self, sess):
        """Apply the edits; what to expect of the steps, and the steps as jobs."""
        for e in sess['edits']:
            self.edit(e)
        with open(self.abs('fbproj.py'), 'w') as f:
            f.write(render(self.funcs, self.init_ver))
        self.closure = static_closure(self.funcs)
        plan, steps = [], []
        env = {'#res': {}}
        outs = dict(self.disk_outs)
        for i, s in enumerate(sess['steps']):
            self.now += 1
            t = self.now
            p = {'t': t, 'calls': {}, 'exp': None, 'outs': {}}
            # evaluated against the sources as of this step; outputs of earlier steps of
            # this session are there to be read
            ev = Eval(self.funcs, self.files, self.init_ver)
            ev.outs = dict(self.disk_outs)
            if s['op'] == 'fs':
                op = self.lower_fs(s['edit'])
                steps.append({'op': 'fs', 'do': op} if op else {'op': 'fs', 'do': ['rm', 'src/none']})
                p['exp'] = ('ok', None)
                env['#res'][i] = None
            elif s['op'] == 'db':
                steps.append(s)
                p['exp'] = None
                env['#res'][i] = None
            elif s['op'] == 'call':
                if not self.resolvable(s, env):
                    steps.append({'op': 'fs', 'do': ['rm', 'src/none']})
                    p['exp'] = ('ok', None)
                    env['#res'][i] = None
                else:
                    job, b = self.lower_call(s, ev, env)
                    steps.append(job)
                    kind, v, info = self.evaluate(s, ev, env)
                    p['exp'] = (kind, enc(v) if kind == 'ok' else v)
                    p['info'] = info
                    env['#res'][i] = v if kind == 'ok' else None
            elif s['op'] == 'map':
                jobs_, vals, exc = [], [], set()
                for c in s['calls']:
                    job, b = self.lower_call(c, ev, env)
                    jobs_.append(job)
                    kind, v, info = self.evaluate(c, ev, env)
                    if kind == 'exc':
                        exc.update(v.split('|'))
                    else:
                        vals.append(v)
                steps.append({'op': 'map', 'calls': jobs_})
                p['exp'] = ('excs', sorted(exc)) if exc else ('ok', enc(vals))
                env['#res'][i] = None
            p['calls'] = ev.calls
            # bring the expected outputs up to date
            for path, content in ev.outs.items() if s['op'] not in ('fs', 'db') else ():
                if self.disk_outs.get(path) != content:
                    self.touch_event(path)
                self.disk_outs[path] = content
            p['outs'] = {o: ev.outs[o] for c in ev.calls.values() if c.get('ok') for o in c['outs']}
            p['complete'] = p['exp'] is not None and p['exp'][0] == 'ok'
            p['changed'] = dict(self.changed)
            plan.append(p)
        return plan, steps

    # -- oracles ---------------------------------------------------------------

    def check_results(self, rows, where):
        """Values, exceptions and output files are those of a from-scratch build."""
        for j, (s, p, o) in enumerate(rows):
            if p['exp'] is None:
                continue
            kind, exp = p['exp']
            self.stats['calls'] += s['op'] != 'fs'
            if kind == 'ok':
                if 'exc' in o:
                    raise Fail('%s step %d (%s): raised %s; a clean build returns %r' % (
                        where, j, s, o['exc'], exp))
                if o['ok'] != exp:
                    raise Fail('%s step %d (%s): returned %r; a clean build returns %r' % (
                        where, j, s, o['ok'], exp))
            else:
                self.stats['exc'] += 1
                want = exp if kind == 'excs' else exp.split('|')
                if 'exc' not in o:
                    raise Fail('%s step %d (%s): returned %r; a clean build raises %s' % (
                        where, j, s, o['ok'], want))
                if o['exc'][0] not in want:
                    raise Fail('%s step %d (%s): raised %s; a clean build raises %s' % (
                        where, j, s, o['exc'], want))

    def check_outputs(self, rows, where):
        final = {}
        for s, p, o in rows:
            if p['complete']:
                final.update(p['outs'])
        # a later step of the session may have removed some on purpose
        for path in sorted(final):
            if path not in self.disk_outs:
                continue
            try:
                with open(self.abs(path)) as f:
                    got = f.read()
            except FileNotFoundError:
                got = None
            if got != self.disk_outs[path]:
                raise Fail('%s: output %s holds %r; a clean build writes %r' % (
                    where, path, got, self.disk_outs[path]))

    def valid(self, k, p):
        """Whether the record of call k must still be usable at this step."""
        if k not in self.recs:
            return False
        t, info, disk = self.recs[k]
        if info['caught']:
            return False
        ch = p['changed']
        fun = info['fun']
        funs = set(info['funs']) | self.closure.get(fun, {fun})
        for f in funs | info.get('closure', set()):
            if ch.get('fun:' + f, -1) > t:
                return False
        for path in info['reads'] | info['outs']:
            if ch.get(path, -1) > t:
                return False
        return True

    def check_minimal(self, rows, where, check=True):
        """No body runs again while the record of its call is valid."""
        for j, (s, p, o) in enumerate(rows):
            started = set()
            for ev, k in o['ev']:
                if ev == 'S':
                    self.stats['runs'] += 1
                    started.add(k)
                    if check and self.valid(k, p):
                        t, info, _ = self.recs[k]
                        raise Fail('%s step %d (%s): ran %s again; it completed before (event %d) '
                                   'and nothing it depends on changed since' % (where, j, s, k, t))
                    if k in self.recs:
                        self.stats['rerun_after_edit'] += 1
                else:
                    info = p['calls'].get(k)
                    if info is not None:
                        info = dict(info, closure=self.closure.get(info['fun'], set()))
                        self.recs[k] = (p['t'], info, None)
            if s['op'] == 'call' and 'ok' in o and p.get('info'):
                if not o['ev']:
                    self.stats['hits'] += 1

    def check_files(self, rows, where):
        """The reported source and output files are those of the call."""
        for j, (s, p, o) in enumerate(rows):
            info = p.get('info')
            if info is None or 'srcs' not in o or info['caught']:
                continue
            for what, exp in (('srcs', info['reads']), ('dsts', info['outs'])):
                if o[what] != sorted(exp):
                    raise Fail('%s step %d (%s): reports %s %r; it has %r' % (
                        where, j, s, what, o[what], sorted(exp)))
