"""OCaml projects (C24)."""
import os

import fbuild
import fbuild.builders.ocaml
import jobs_db
from fbuild.path import Path


def start(root, tools, engine, jobs):
    os.chdir(root)
    os.environ['PATH'] = tools + ':/usr/bin:/bin'
    os.environ['CCLOG'] = root + '/cclog'
    ctx = jobs_db.make_context(engine, jobs)
    jobs_db.open_session(ctx)
    return ctx


def make(ctx, kind):
    return getattr(fbuild.builders.ocaml, {'byte': 'Ocamlc', 'native': 'Ocamlopt', 'both': 'Ocaml'}[kind])(ctx)


def prepare(root, tools, engine, kind):
    ctx = start(root, tools, engine, 1)
    try:
        make(ctx, kind)
        fbuild.builders.ocaml.Ocamllex(ctx)
        fbuild.builders.ocaml.Ocamlyacc(ctx)
    finally:
        jobs_db.close_session(ctx)


def both(r):
    return [str(x) for x in (r if isinstance(r, fbuild.builders.ocaml.Ocaml.Tuple) else [r])]


def session(root, tools, engine, jobs, kind, targets):
    ctx = start(root, tools, engine, jobs)
    out, made = [], {}
    try:
        b = make(ctx, kind)
        lex = fbuild.builders.ocaml.Ocamllex(ctx)
        yacc = fbuild.builders.ocaml.Ocamlyacc(ctx)
        for t in targets:
            if any(l not in made for l in t['libs'] + t['packs']):
                out.append(['skip'])
                continue
            try:
                srcs = []
                for s in t['srcs']:
                    if s.endswith('.mll'):
                        srcs.append(lex(Path(s)))
                    elif s.endswith('.mly'):
                        srcs += sorted(yacc(Path(s)), reverse=True)
                    else:
                        srcs.append(Path(s))
                kw = {}
                if t['includes']:
                    kw['includes'] = [Path(i) for i in t['includes']]
                if t['cflags']:
                    kw['cflags'] = list(t['cflags'])
                if t['lflags']:
                    kw['lflags'] = list(t['lflags'])
                if t['packs']:
                    kw['objs'] = [made[l] for l in t['packs']]
                if t['libs']:
                    kw['libs'] = [made[l] for l in t['libs']]
                if t['how'] == 'steps':
                    objs = kw.pop('objs', [])
                    kw['includes'] = [Path(i) for i in t['includes']]
                    flags = {'flags': kw.pop('cflags', [])}
                    objs += [b.compile(Path(s), includes=kw['includes'], **flags) for s in srcs]
                    if not t['libs']:
                        del kw['includes']
                    if t['lflags']:
                        kw['flags'] = kw.pop('lflags')
                    r = (b.link_lib if t['what'] == 'lib' else b.link_exe)(t['dst'], objs, **kw)
                elif t['what'] == 'pack':
                    r = b.build_pack(t['dst'], srcs, **({'flags': kw['cflags']} if t['cflags'] else {}))
                elif t['what'] == 'lib':
                    r = b.build_lib(t['dst'], srcs, **kw)
                else:
                    r = b.build_exe(t['dst'], srcs, **kw)
            except fbuild.ExecutionError as e:
                out.append(['error', str(e)[-300:] + (e.stderr or b'').decode('utf-8', 'replace')[-800:]])
                continue
            made[t['name']] = r
            o = ['ok', both(r)]
            if t['what'] == 'exe':
                prints = []
                for x in both(r):
                    try:
                        stdout, stderr = ctx.execute([x], quieter=1)
                        prints.append(stdout.decode())
                    except fbuild.ExecutionError as e:
                        prints.append('cannot run: %s' % (e.stderr or b'').decode('utf-8', 'replace')[-600:])
                o.append(prints)
            out.append(o)
    finally:
        jobs_db.close_session(ctx)
    return out
