"""Checks of paths; run without forking."""
import os
import pickle

from fbuild.path import Path
from codec import enc


def laws(cwd, env_vars, case):
    os.chdir(cwd)
    old = {k: os.environ.get(k) for k in env_vars}
    os.environ.update(env_vars)
    os.environ.pop('no', None)
    try:
        ops = []
        for s in case['paths']:
            both = {}
            for form in ('obj', 'str'):
                p = Path(s) if form == 'obj' else s
                r = {}
                for k in ('dirname', 'basename', 'split', 'splitext', 'isabs', 'abspath', 'normpath', 'normcase',
                          'expandvars', 'expanduser', 'splitdrive', 'splitall'):
                    r[k] = enc(getattr(Path, k)(p))
                r['replaceext'] = enc(Path.replaceext(p, case['ext']))
                r['replaceexts'] = enc(Path.replaceexts(p, case['exts']))
                r['addprefix'] = enc(Path.addprefix(p, case['prefix']))
                r['addroot'] = enc([Path.addroot(p, x) for x in case['roots']])
                r['removeroot'] = enc([Path.removeroot(p, x) for x in case['roots']])
                if s:
                    r['relpath'] = enc(Path.relpath(p, Path(case['start'])))
                    if r['relpath'] != enc(Path.relpath(p, case['start'])):
                        r['relpath'] = 'differs with type of start'
                    r['relpath0'] = enc(Path.relpath(p))
                if form == 'obj':
                    r['new'] = enc(p)
                    r['ext'], r['name'], r['parent'] = enc(p.ext), enc(p.name), enc(p.parent)
                    r['plus'] = enc(p + 'suffix')
                    r['div'] = enc([p / q for q in case['paths']])
                    r['rdiv'] = enc([q / p for q in case['paths']])
                    r['hash'] = p == s and hash(p) == hash(s) and {p: 1} == {s: 1}
                    r['repr'] = eval(repr(p)) == p and type(eval(repr(p))) is Path
                    r['pickle'] = enc(pickle.loads(pickle.dumps(p, pickle.HIGHEST_PROTOCOL)))
                both[form] = r
            ops.append(both)
        return {'ops': ops, 'nest': enc(Path(*case['nest'])), 'common': Path.commonprefix(case['paths'])}
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        os.chdir('/')


def paths(it):
    out = []
    for p in it:
        if type(p) is not Path:
            raise TypeError('%r is no path' % (p,))
        out.append(str(p))
    return sorted(out)


def file_op(root, op, p, arg):
    os.chdir(root)
    try:
        q = Path(p)
        try:
            if op == 'listdir':
                return paths(q.listdir())
            if op == 'access':
                return q.access(os.R_OK)
            if op == 'digest':
                return q.digest() if arg is None else q.digest(arg)
            if op == 'find':
                return paths(q.find())
            if op == 'findfiles':
                return paths(q.find(include_dirs=False))
            if op == 'findpat':
                return paths(q.find(arg))
            if op == 'walk':
                out = []
                for d, ds, fs in q.walk():
                    paths([d])
                    out += [os.path.join(d, n) for n in ds + fs]
                return sorted(out)
            if op == 'readlink':
                return q.readlink()
            if op == 'realpath':
                return paths([q.realpath()])[0][len(os.path.realpath(root)):]
            if op in ('stat', 'lstat'):
                return getattr(q, op)().st_size if not q.isdir() else 0
            if op == 'write':
                with open(q, 'wb') as f:
                    f.write(arg[0].encode('latin-1') * arg[1])
                return None
            if op in ('exists', 'lexists', 'isdir', 'isfile', 'islink', 'ismount', 'getsize', 'getmtime',
                      'linecount', 'samefile'):
                return getattr(q, op)(*([] if arg is None else [Path(arg)]))
            getattr(q, op)(*([] if arg is None else [Path(arg) if isinstance(arg, str) else arg]))
            return None
        except OSError:
            return {'error': 'OSError'}
        except ValueError:
            return {'error': 'ValueError'}
    finally:
        os.chdir('/')
