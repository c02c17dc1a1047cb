"""Checks of functions without state; run without forking."""
import fbuild.functools
from codec import enc


def show(v):
    return enc(v)


def bind(src, form, n, kwargs):
    """What Python and what fbuild make of the call."""
    ns = {'functools': fbuild.functools}
    exec(src, ns)
    holder = ns.get('C')
    pre = ()
    if form == 'function':
        f = g = ns['f']
    elif form == 'method':
        o = holder()
        f = g = o.f
    elif form == 'static':
        f = g = holder.f
    elif form == 'class':
        f = g = holder.f
    elif form == 'wrapped':
        f = ns['f']
        g = ns['outer']
    elif form == 'unbound':
        f = g = holder.f
        pre = (7,)
    args = pre + tuple(range(1, n + 1))
    args0, kwargs0 = list(args), dict(kwargs)
    try:
        want = dict(f(*args, **kwargs))
    except TypeError:
        want = None
    if want is not None:
        want.pop('self', None) if form == 'method' else None
        want.pop('cls', None) if form == 'class' else None
    res = {'want': enc(want)}
    for name, fun in (('bind', lambda: fbuild.functools.bind_args(g, args, kwargs)),
                      ('norm', lambda: fbuild.functools.normalize_args(f, args, kwargs))):
        try:
            got = fun()
        except TypeError as e:
            res[name] = None
            res[name + '_error'] = str(e)
        else:
            if name == 'norm':
                # what the function receives through the normalized arguments
                try:
                    got = dict(f(*got[0], **got[1]))
                except TypeError as e:
                    got = 'not accepted: %s' % e
                else:
                    got.pop('self', None) if form == 'method' else None
                    got.pop('cls', None) if form == 'class' else None
            res[name] = enc(got)
    res['kept'] = list(args) == args0 and kwargs == kwargs0
    if form == 'wrapped':
        # the database adds this one
        kw = dict(kwargs)
        kw['__FBUILD_INNER'] = f
        try:
            res['inner'] = enc(fbuild.functools.bind_args(g, args, kw))
        except TypeError:
            res['inner'] = None
    return res


def match(ops):
    import warnings
    import fbuild.fnmatch
    from fbuild.path import Path
    res = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for fn, kind, pat, names in ops:
            conv = {'str': str, 'bytes': lambda s: s.encode('latin-1'), 'path': Path}[kind]
            if kind == 'path' and fn == 'path':
                conv = str
            try:
                if fn == 'filter':
                    out = fbuild.fnmatch.filter([conv(n) for n in names], conv(pat))
                    res.append([o.decode('latin-1') if kind == 'bytes' else o for o in out])
                elif fn == 'case':
                    res.append([fbuild.fnmatch.fnmatchcase(conv(n), conv(pat)) for n in names])
                elif fn == 'path' and kind != 'bytes':
                    res.append([Path(n).fnmatch(conv(pat)) for n in names])
                else:
                    res.append([fbuild.fnmatch.fnmatch(conv(n), conv(pat)) for n in names])
            except Exception as e:
                res.append('%s: %s' % (type(e).__name__, e))
    return res


def globs(root, ops):
    import os
    import fbuild.glob
    from fbuild.path import Path
    os.chdir(root)
    res = []

    def conv(n):
        return n[1] if n[0] == 'P' else [conv(x) for x in n[1:]]

    try:
        for op in ops:
            try:
                if op[0] == 'literal':
                    out = Path(op[1]).glob()
                elif op[0] == 'escape':
                    out = Path.glob(fbuild.glob.escape(op[1]))
                elif op[0] == 'plainglob':
                    out = fbuild.glob.glob(op[1], recursive=op[2])
                elif op[0] == 'glob':
                    ex = op[2]
                    out = Path(op[1]).glob(exclude=ex[0] if len(ex) == 1 else ex)
                else:
                    out = Path.globall(*[conv(n) for n in op[1]], exclude=op[2])
                for p in out:
                    if op[0] != 'plainglob' and type(p) is not Path:
                        raise TypeError('%r is no path' % (p,))
                res.append([str(p) for p in out])
            except Exception as e:
                res.append('%s: %s' % (type(e).__name__, e))
    finally:
        os.chdir('/')
    return res
