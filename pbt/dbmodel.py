"""Generated fbuild projects: their source text, and what a from-scratch build of
them returns.  The evaluator below knows nothing of caching: it is the oracle."""
import hashlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pypy'))
from codec import enc, dec  # noqa: E402

ANN = {'src': 'SRC', 'srcs': 'SRCS', 'opt': 'OPTIONAL_SRC', 'dst': 'DST', 'dsts': 'DSTS',
       'odst': 'OPTIONAL_DST'}


def short(x):
    return hashlib.md5(x.encode()).hexdigest()[:12]


def key(name, args):
    return name + repr(enc(args))


def out(tag, *vals):
    return 'build/%s-%s.out' % (tag, short(repr([enc(v) for v in vals])))


class BuildErr(Exception):
    pass


# ------------------------------------------------------------------------------
# Source text
#
# A function spec:
#   name, kind: 'fun' | 'method' | 'prop' | 'deco'
#   params: list of [name, default or NODEF]; the name's kind gives its annotation:
#       x, y plain; src, srcs, opt, dst, odst annotated; *xs; **kw
#   ret: None | 'DST' | 'DSTS';   res: 'str' | 'tuple' | 'dict' | 'list'
#   ver: int;  pos: where the version constant stands in the text
#   body: statements
#
# Statements: ['ext', file] ['extif', file, then, else] ['extout', [file...]] ['call', callee, args, mode] ['rec', callee, args]
#   ['try', callee, args] ['map', callee, [args...]] ['raiseif', value] ['point']
# args: {param: expr}; expr: ['lit', encoded] | ['par', name] | ['out'] | ['dec', name]
#   'par' also lifts a single src into srcs: ['par1', name]

NODEF = '<none>'


def is_kwonly(p):
    return p in ('opt', 'odst', 'k')


def params_src(f):
    ps = []
    star = False
    names = [p for p, d in f['params']]
    for p, d in f['params']:
        if p == 'xs':
            ps.append('*xs')
            star = True
            continue
        if p == 'kw':
            continue
        if is_kwonly(p) and not star:
            ps.append('*')
            star = True
        s = p
        if p in ANN:
            s += ':fbuild.db.' + ANN[p]
        if d != NODEF:
            s += ('=' if p not in ANN else '=') + pyrepr(dec(d))
        ps.append(s)
    if 'kw' in names:
        ps.append('**kw')
    return ps


def pyrepr(v):
    if isinstance(v, str) and type(v) is not str:
        return 'Path(%r)' % str(v)
    if type(v) is list:
        return '[' + ', '.join(pyrepr(x) for x in v) + ']'
    if type(v) is tuple:
        return '(' + ' '.join(pyrepr(x) + ',' for x in v) + ')'
    if type(v) is dict:
        return '{' + ', '.join('%s: %s' % (pyrepr(k), pyrepr(x)) for k, x in v.items()) + '}'
    return repr(v)


def callee_ref(g):
    if g['kind'] == 'fun':
        return g['name']
    cls = g.get('cls', 'K')
    return '%s(ctx, %r).%s' % (cls, g.get('tag', 'k'), g['name'])


def expr_src(e):
    if e[0] == 'lit':
        return pyrepr(dec(e[1]))
    if e[0] == 'par':
        return e[1]
    if e[0] == 'par1':
        return '[%s]' % e[1]
    if e[0] == 'dec':
        return '%s - 1' % e[1]
    raise ValueError(e)


def call_args_src(g, args, style=0):
    """Positional where possible; style 1 passes every named argument by keyword,
    style 2 leaves out nothing and mixes."""
    parts, kwparts = [], []
    outvals = []
    bykw = style == 1 and not args.get('xs')
    for p, d in g['params']:
        if p in ('dst', 'odst', 'dsts') or p not in args:
            continue
        outvals.append(repr(p))
        if p == 'xs':
            outvals += [expr_src(e) for e in args['xs']]
        elif p == 'kw':
            for k, e in sorted(args['kw'].items()):
                outvals += [repr(k), expr_src(e)]
        else:
            outvals.append(expr_src(args[p]))
    for p, d in g['params']:
        if p == 'xs':
            for e in args.get('xs', []):
                parts.append(expr_src(e))
            continue
        if p == 'kw':
            for k, e in sorted(args.get('kw', {}).items()):
                kwparts.append('%s=%s' % (k, expr_src(e)))
            continue
        if p not in args:
            # the default applies; anything after goes by keyword
            bykw = True
            continue
        e = args[p]
        if e[0] == 'out':
            s = 'rt.out(%s)' % ', '.join([repr(g['name'])] + outvals)
            if p == 'dsts':
                s = '[%s]' % s
        else:
            s = expr_src(e)
        if is_kwonly(p) or bykw:
            kwparts.append('%s=%s' % (p, s))
        else:
            parts.append(s)
    return ', '.join(parts + kwparts)


def render_fun(f, byname, indent=''):
    L = []
    kind = f['kind']
    self_ = kind != 'fun'
    ctx = 'self.ctx' if self_ else 'ctx'
    ps = (['self'] if self_ else ['ctx']) + params_src(f)
    ver = f['ver']
    pos = f.get('pos', 'top')
    if pos == 'default' and kind != 'prop' and not any(p == 'kw' for p, d in f['params']):
        pass
    if kind == 'fun':
        L.append('@fbuild.db.caches')
    elif kind == 'prop':
        L.append('@fbuild.db.cacheproperty')
    else:
        L.append('@fbuild.db.cachemethod')
        if kind == 'deco':
            L.append('@fbuild.builders.platform.auto_platform_options()')
    ret = ' -> fbuild.db.%s' % f['ret'] if f.get('ret') else ''
    if pos == 'comment':
        L.append('def %s(%s)%s:  # revision %d' % (f['name'], ', '.join(ps), ret, ver))
    else:
        L.append('def %s(%s)%s:' % (f['name'], ', '.join(ps), ret))
    B = []
    argd = ', '.join('%r: %s' % (p, p) for p, d in f['params'])
    tag = "'self': self.tag, " if self_ else ''
    if self_:
        B.append('ctx = self.ctx')
        B.append("acc = rt.Acc(type(self).__name__ + %r, {%s%s})" % ('.' + f['name'], tag, argd))
        B.append('acc.add(self.ver)')
    else:
        B.append('acc = rt.Acc(%r, {%s})' % (f['name'], argd))
    if pos == 'top':
        B.append('acc.add(%d)' % ver)
    elif pos == 'nested':
        B += ['def inner(n):', '    if n:', '        return inner(n - 1)',
              '', '    return %d' % ver, 'acc.add(inner(2))']
    elif pos == 'multi':
        B += ['acc.add((', '    lambda:', '        %d)())' % ver]
    elif pos == 'comment':
        B.append('acc.add(%d)' % ver)
    B.append('acc.point()')
    names = [p for p, d in f['params']]
    for p in names:
        if p == 'src':
            B.append('acc.read(src)')
        elif p == 'srcs':
            B.append('acc.readall(srcs)')
        elif p == 'opt':
            B += ['if opt is not None:', '    acc.read(opt)']
    extout = any(st[0] == 'extout' for st in f['body'])
    if extout:
        B.append("extout = rt.out(%s)" % ', '.join(
            ["'e' + acc.name"] + (['self.tag'] if self_ else []) + names))
    for st in f['body']:
        B += render_stmt(f, st, byname)
    if pos == 'end':
        B += ['', '# almost done', 'acc.add(%d)' % ver]
    own = [p for p in names if p not in ('dst', 'odst', 'dsts', 'xs', 'kw')]
    if extout:
        B.append('acc.write(extout)')
    if 'dst' in names:
        B.append('acc.write(dst)')
    if 'dsts' in names:
        B.append('acc.write(*dsts)')
    if 'odst' in names:
        B += ['if odst is not None:', '    acc.write(odst)']
    if f.get('ret') == 'DST':
        B.append('return acc.done(acc.write(rt.out(%s))[0])' % ', '.join(
            ["'r' + acc.name"] + (['self.tag'] if self_ else []) + names))
    elif f.get('ret') == 'DSTS':
        a = ', '.join((['self.tag'] if self_ else []) + names)
        B.append("return acc.done(list(acc.write(rt.out('r0' + acc.name, %s), "
                 "rt.out('r1' + acc.name, %s))))" % (a, a))
    else:
        res = {'str': 'acc.token()', 'tuple': '(acc.token(), 7)',
               'dict': "{'t': acc.token(), 'l': [1, 2]}", 'list': '[acc.token(), None]'}[f['res']]
        B.append('return acc.done(%s)' % res)
    L += ['    ' + b if b else '' for b in B]
    return '\n'.join(indent + l if l else '' for l in L) + '\n'


def fun_id(f):
    return f['name'] if f['kind'] == 'fun' else '%s.%s' % (f.get('cls', 'K'), f['name'])


def render_stmt(f, st, byname):
    op = st[0]
    if op == 'ext':
        return ['acc.ext(ctx, %r)' % st[1]]
    if op == 'extif':
        return ["acc.ext(ctx, %r if acc.ext(ctx, %r) in 'AC' else %r)" % (st[2], st[1], st[3])]
    if op == 'extout':
        # registers each source together with the output, which is written at the end
        return ['acc.ext(ctx, %r, extout)' % p for p in st[1]]
    if op == 'point':
        return ['acc.point()']
    if op == 'raiseif':
        return ['if x == %s:' % pyrepr(dec(st[1])), '    raise rt.BuildErr(%r)' % f['name']]
    if op in ('call', 'rec', 'try'):
        g = byname[st[1]]
        a = call_args_src(g, st[2], st[4] if len(st) > 4 else 0)
        ref = callee_ref(g)
        mode = st[3]
        if g['kind'] == 'prop':
            # a property has no .call of its own; read it plainly
            line = 'acc.value(%s)' % ref
        elif mode == 'dep':
            c = 'ctx, ' if g['kind'] == 'fun' else ''
            line = 'acc.dep(ctx, %s.call(%s%s))' % (ref, c, a)
        else:
            c = 'ctx, ' if g['kind'] == 'fun' else ''
            line = 'acc.value(%s(%s%s))' % (ref, c, a)
        line = line.replace(', )', ')')
        if op == 'rec':
            return ['if %s > 2:' % st[5], '    ' + line]
        if op == 'try':
            return ['try:', '    ' + line, 'except rt.BuildErr:', "    acc.add('caught')"]
        return [line]
    if op == 'map':
        g = byname[st[1]]
        L = ['def one(k):', '    return [']
        for args in st[2]:
            c = 'ctx, ' if g['kind'] == 'fun' else ''
            a = call_args_src(g, args)
            L.append(('        lambda: %s.call(%s%s),' % (callee_ref(g), c, a)).replace(', )', ')'))
        L += ['    ][k]()',
              'for t in ctx.scheduler.map(one, range(%d)):' % len(st[2]),
              '    acc.dep(ctx, t)']
        return L
    raise ValueError(st)


HEADER = '''import fbuild
import fbuild.builders.platform
import fbuild.db
from fbuild.path import Path
import rt

'''


def render(funcs, init_ver=1):
    byname = {f['name']: f for f in funcs}
    L = [HEADER]
    for f in funcs:
        if f['kind'] == 'fun':
            L.append(render_fun(f, byname))
    meths = [f for f in funcs if f['kind'] != 'fun']
    if meths:
        base = [f for f in meths if f.get('cls', 'K') in ('K', 'K2')]
        L.append('class K(fbuild.db.PersistentObject):\n'
                 '    def __init__(self, ctx, tag):\n'
                 '        super().__init__(ctx)\n'
                 "        acc = rt.Acc(type(self).__name__, {'tag': tag})\n"
                 '        self.tag = tag\n'
                 '        self.ver = %d\n'
                 '        acc.done(None)\n' % init_ver)
        for f in base:
            L.append(render_fun({**f, 'cls': 'K'}, byname, '    '))
        L.append('class K2(K):\n    pass\n')
    return '\n'.join(L)


# ------------------------------------------------------------------------------
# From-scratch evaluation

class Eval:
    """Evaluates calls with no cache.  files: source files; outs: files written."""

    def __init__(self, funcs, files, init_ver=1):
        self.by = {f['name']: f for f in funcs}
        self.files = dict(files)
        self.outs = {}
        self.init_ver = init_ver
        self.calls = {}        # key -> {'reads', 'outs', 'callees'} of the last evaluation
        self.order = []
        self.depth = 0
        self.either = False    # several tasks failed in different ways

    def read(self, items, name, path):
        s = self.outs.get(path)
        if s is None:
            s = self.files.get(path)
        if s is None:
            raise FileNotFoundError(path)
        items.append('r:%s:%s' % (path, s))
        if 'ERR' in s:
            raise BuildErr('%s reads %s' % (name, path))
        return s

    def bind(self, g, args, env):
        b = {}
        for p, d in g['params']:
            if p == 'xs':
                b['xs'] = tuple(self.expr(e, env) for e in args.get('xs', []))
            elif p == 'kw':
                b['kw'] = {k: self.expr(e, env) for k, e in args.get('kw', {}).items()}
            elif p in args and args[p][0] != 'out':
                b[p] = self.expr(args[p], env)
            elif p in args:
                b[p] = None     # filled below
            else:
                b[p] = dec(d)
        vals = []
        for p, d in g['params']:
            if p in ('dst', 'odst', 'dsts') or p not in args:
                continue
            vals.append(p)
            if p == 'xs':
                vals += b[p]
            elif p == 'kw':
                for k, v in sorted(b[p].items()):
                    vals += [k, v]
            else:
                vals.append(b[p])
        for p in ('dst', 'odst', 'dsts'):
            if p in args and args[p][0] == 'out':
                o = out(g['name'], *vals)
                b[p] = [o] if p == 'dsts' else o
        return b

    def expr(self, e, env):
        if e[0] == 'lit':
            return dec(e[1])
        if e[0] == 'par':
            return env[e[1]]
        if e[0] == 'par1':
            return [env[e[1]]]
        if e[0] == 'dec':
            return env[e[1]] - 1
        if e[0] == 'res':
            return env['#res'][e[1]]
        raise ValueError(e)

    def call(self, name, args, env=None):
        """args: {param: expr}."""
        g = self.by[name]
        return self.apply(g, self.bind(g, args, env or {}))

    def construct(self, g):
        cls = g.get('cls', 'K')
        k = key(cls, {'tag': g.get('tag', 'k')})
        self.calls[k] = {'reads': set(), 'outs': set(), 'keys': {k}, 'funs': {cls}, 'fun': cls,
                         'ok': True, 'caught': False}
        return cls, k

    def apply(self, g, b):
        fid = fun_id(g)
        self_ = g['kind'] != 'fun'
        full = dict({'self': g.get('tag', 'k')} if self_ else {}, **b)
        k = key(fid, full)
        info = {'reads': set(), 'outs': set(), 'keys': {k}, 'funs': {fid}, 'fun': fid, 'ok': False,
                'caught': False}
        items = [k]
        if self_:
            items.append(repr(self.init_ver))
            info['funs'].add(g.get('cls', 'K'))
        names = [p for p, d in g['params']]
        # the declared sources have to exist before the call is looked up
        for p in names:
            if p == 'src':
                info['reads'].add(b[p])
            elif p == 'srcs':
                info['reads'].update(b[p])
            elif p == 'opt' and b[p] is not None:
                info['reads'].add(b[p])
        for p in sorted(info['reads']):
            if p not in self.outs and p not in self.files:
                raise FileNotFoundError(p)
        self.depth += 1
        try:
            if g.get('pos', 'top') != 'end':
                items.append(repr(g['ver']))
            for p in names:
                if p == 'src':
                    self.read(items, g['name'] if not self_ else fid, b['src'])
                elif p == 'srcs':
                    for s in b['srcs']:
                        self.read(items, fid, s)
                elif p == 'opt' and b['opt'] is not None:
                    self.read(items, fid, b['opt'])
            for st in g['body']:
                self.stmt(g, b, st, items, info, fid)
            if g.get('pos') == 'end':
                items.append(repr(g['ver']))
        finally:
            self.depth -= 1
        tok = short('|'.join(items))

        def write(paths):
            for i, p in enumerate(paths):
                self.outs[p] = '%s%d' % (tok, i)
                info['outs'].add(p)
        if any(st[0] == 'extout' for st in g['body']):
            write([out('e' + fid, *(([g.get('tag', 'k')] if self_ else []) + [b[p] for p in names]))])
        if 'dst' in names:
            write([b['dst']])
        if 'dsts' in names:
            write(b['dsts'])
        if 'odst' in names and b['odst'] is not None:
            write([b['odst']])
        vals = ([g.get('tag', 'k')] if self_ else []) + [b[p] for p in names]
        if g.get('ret') == 'DST':
            p = out('r' + fid, *vals)
            write([p])
            v = p
        elif g.get('ret') == 'DSTS':
            v = [out('r0' + fid, *vals), out('r1' + fid, *vals)]
            write(v)
        else:
            v = {'str': tok, 'tuple': (tok, 7), 'dict': {'t': tok, 'l': [1, 2]},
                 'list': [tok, None]}[g['res']]
        info['ok'] = True
        self.calls[k] = info
        self.order.append(k)
        return v, info

    def stmt(self, g, b, st, items, info, fid):
        op = st[0]

        def merge(i2):
            info['reads'] |= i2['reads']
            info['outs'] |= i2['outs']
            info['keys'] |= i2['keys']
            info['funs'] |= i2['funs']
            info['caught'] |= i2['caught']

        def value(v):
            items.append(repr(enc(v)))
            for p in ([v] if isinstance(v, str) else v if isinstance(v, list) else []):
                if isinstance(p, str) and p.startswith('build/'):
                    self.read(items, fid, p)

        if op == 'ext':
            self.read(items, fid, st[1])
            info['reads'].add(st[1])
        elif op == 'extif':
            s = self.read(items, fid, st[1])
            info['reads'].add(st[1])
            p = st[2] if s in 'AC' else st[3]
            self.read(items, fid, p)
            info['reads'].add(p)
        elif op == 'extout':
            for p in st[1]:
                self.read(items, fid, p)
                info['reads'].add(p)
        elif op == 'point':
            pass
        elif op == 'raiseif':
            if b['x'] == dec(st[1]):
                raise BuildErr(g['name'])
        elif op in ('call', 'rec', 'try'):
            h = self.by[st[1]]
            if op == 'rec' and not b[st[5]] > 2:
                info['funs'].add(fun_id(h))
                return
            if h['kind'] != 'fun':
                c, ck = self.construct(h)
                info['funs'].add(c)
                info['keys'].add(ck)
            info['funs'].add(fun_id(h))
            try:
                v, i2 = self.apply(h, self.bind(h, st[2], b))
            except BuildErr:
                if op != 'try':
                    raise
                items.append(repr('caught'))
                info['caught'] = True
                return
            value(v)
            merge(i2)
        elif op == 'map':
            h = self.by[st[1]]
            if h['kind'] != 'fun':
                c, ck = self.construct(h)
                info['funs'].add(c)
                info['keys'].add(ck)
            got, exc = [], None
            for a in st[2]:
                try:
                    got.append(self.apply(h, self.bind(h, a, b)))
                except (BuildErr, FileNotFoundError) as e:
                    # any of the failures may be the one that is reported
                    if exc is not None and type(e) is not type(exc):
                        self.either = True
                    exc = e
            if exc is not None:
                raise exc
            for v, i2 in got:
                value(v)
                merge(i2)
        else:
            raise ValueError(st)


def static_closure(funcs):
    """fun id -> ids of every function its text mentions, transitively, itself included."""
    by = {f['name']: f for f in funcs}
    direct = {}
    for f in funcs:
        s = set()
        for st in f['body']:
            if st[0] in ('call', 'rec', 'try', 'map'):
                g = by[st[1]]
                s.add(fun_id(g))
                if g['kind'] != 'fun':
                    s.add(g.get('cls', 'K'))
        if f['kind'] != 'fun':
            s.add(f.get('cls', 'K'))
        direct[fun_id(f)] = s
    direct['K'] = set()
    direct['K2'] = set()
    clo = {}
    for f in direct:
        seen, todo = set(), [f]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            todo.extend(direct.get(n, ()))
        clo[f] = seen
    return clo
