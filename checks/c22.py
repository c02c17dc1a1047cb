"""C22: configuration probes report what the compiler has."""
import json
import os
import shutil
import subprocess

from hypothesis import strategies as st

from pbt.core import Fail, Part
from checks.c21 import WRAPPER, write

ID = 'C22'
LEVEL = 'exploration'
TECHNIQUE = ('property-based testing: probes of generated headers, asked one after the other and in parallel and over several processes '
             'while headers and tests change, against a model of the headers and sizes from the compiler')
NOTE = 'Random search with shrinking.'
RULE = ('A case is a set of headers, test classes and a history of sessions that probe them, or a list of programs to try; non-trivial: '
        'at least one thing was found and one was missing.')
ASSUMPTIONS = ['a remembered answer stays when the header changes: probing happens once',
               'functions are used with the types of their arguments; one with default arguments, own test program, input or expected '
               'output is really called',
               'a variable that is declared but not defined is present, since its use compiles']
VARIANTS = [{'includes': ['inc']}, {'includes': ['inc'], 'macros': ['ALT=1']}]
ENGINES = {'gcc': 'pickle', 'g++': 'sqlite'}
BASICS = ['int', 'char', 'signed char', 'unsigned short', 'long', 'unsigned long long', 'float', 'double', 'long double', 'bool']
TYPE_FORMS = ['plain', 'plain', 'pointer', 'array', 'fp', 'function', 'aligned', 'struct', 'packed', 'union', 'enum', 'void', 'incomplete', 'huge', 'huge']
BODIES = ['', '', '__builtin_trap();', 'for (;;) __asm__ volatile("");', '*(volatile int*)0 = 1;', '__builtin_abort();']
FN_ARGS = ['int', 'const char*', 'void (*)(int)', 'void* (*)(void*)', 'int[3]', ['Function', ['int', 'const char*', 'int']],
           ['Function', ['void', 'void']]]
FN_RETS = ['void', 'int', 'char*', 'double', ['Function', ['void', 'int']]]
NPL = 3


def name_type(t, name):
    if isinstance(t, list):
        return '%s (*%s)(%s)' % (t[1][0], name, ', '.join(t[1][1:]))
    if '(*)' in t:
        return t.replace('(*)', '(*%s)' % name)
    if '[' in t:
        return t.replace('[', ' %s[' % name)
    return t + ' ' + name


# what the headers declare

@st.composite
def header_items(draw, h, cxx, ns):
    def pick(xs):
        return draw(st.sampled_from(xs))

    items, structs = [], []
    for n in range(draw(st.integers(0, 6))):
        kind = pick(['type', 'type', 'type', 'struct', 'macro', 'var', 'fn', 'fn', 'fn'] + (['template'] if cxx else []))
        e = {'kind': kind, 'name': '%s%d_%d' % (kind[0], h, n), 'alt': pick([0, 0, 0, 1])}
        if kind == 'type':
            e.update(form=pick(TYPE_FORMS), base=pick(BASICS + ['struct ' + s for s in structs]))
            if e['form'] == 'huge':
                e['base'] = 'char'
        elif kind == 'struct':
            e['members'] = [[pick(['int', 'char*', 'double', 'short', 'float']), 'm%d' % i] for i in range(draw(st.integers(1, 3)))]
            structs.append(e['name']) if not e['alt'] and not ns else None
        elif kind == 'macro':
            e['text'] = pick(['', ' 0', ' 1+', '(x) x'])
        elif kind == 'var':
            e['form'] = pick(['extern int %s;', 'static int %s;', 'extern double %s[3];', 'enum { %s };'])
        elif kind == 'template':
            e['params'] = draw(st.integers(1, 3))
        else:
            e.update(ret=pick(FN_RETS), args=[pick(FN_ARGS) for _ in range(draw(st.integers(0, 3)))],
                     how=pick(['inline', 'inline', 'inline', 'undefined', 'lib']), body=pick(BODIES))
            if e['how'] == 'lib':
                e.update(name='pl%d_%d' % (h, draw(st.integers(0, NPL - 1))), ret='int', args=['int'])
                if ns or any(i['name'] == e['name'] for i in items):
                    continue
        items.append(e)
    return items


def declare(e, cxx):
    n, k = e['name'], e['kind']
    if k == 'type':
        b = e['base']
        if not cxx:
            b = '_Bool' if b == 'bool' else b
        t = {'plain': 'typedef %(b)s %(n)s;', 'pointer': 'typedef %(b)s *%(n)s;', 'array': 'typedef %(b)s %(n)s[3];',
             'fp': 'typedef %(b)s (*%(n)s)(int);', 'function': 'typedef int %(n)s(%(b)s);',
             'aligned': 'typedef %(b)s %(n)s __attribute__((aligned(32)));', 'struct': 'typedef struct { char a; %(b)s b; } %(n)s;',
             'packed': 'typedef struct { char a; %(b)s b; } __attribute__((packed)) %(n)s;', 'union': 'typedef union { long a; %(b)s b; } %(n)s;',
             'enum': 'typedef enum { %(n)s_a = -1 } %(n)s;', 'void': 'typedef void %(n)s;', 'incomplete': 'typedef struct %(n)s_i %(n)s;',
             'huge': 'typedef char %(n)s[3000000000];'}[e['form']] % {'b': b, 'n': n}
    elif k == 'struct':
        t = 'struct %s { %s};' % (n, ''.join('%s %s; ' % tuple(m) for m in e['members']))
    elif k == 'macro':
        t = '#define %s%s' % (n, e['text'])
    elif k == 'var':
        t = e['form'] % n
        if t.startswith('static'):
            t = '__attribute__((unused)) ' + t
    elif k == 'template':
        t = 'template <%s> struct %s { };' % (', '.join('typename T%d' % i for i in range(e['params'])), n)
    else:
        args = ', '.join(name_type(a, 'a%d' % i) for i, a in enumerate(e['args'])) or 'void'
        t = name_type(['Function', ['', '']], n)
        r = e['ret']
        if isinstance(r, list):
            t = '%s (*%s(%s))(%s)' % (r[1][0], n, args, ', '.join(r[1][1:]))
        else:
            t = '%s %s(%s)' % (r, n, args)
        if e['how'] == 'inline':
            t = '__attribute__((unused)) static %s { %s %s }' % (t, e['body'], '' if r == 'void' else 'return 0;')
        else:
            t = ('extern "C" ' if cxx and e['how'] == 'lib' else '') + t + ';'
    return '#ifdef ALT\n%s\n#endif' % t if e['alt'] else t


@st.composite
def fields(draw, case, h, cxx):
    """A field of a test class: what it tests, how, and under which key."""
    def pick(xs):
        return draw(st.sampled_from(xs))

    items = [e for i in ([h] if draw(st.integers(0, 5)) else range(len(case['headers']))) for e in case['headers'][i]['items']]
    key = pick(['x0', 'x1', 'x2', 'x3'])
    kind = pick(['type', 'type', 'int_type', 'struct', 'macro', 'var', 'fn', 'fn', 'fn', 'run', 'header'] + (['template'] if cxx else []))
    if items and draw(st.integers(0, 2)):
        kind = pick(items)['kind']
        if kind == 'type':
            kind = pick(['type', 'int_type'])
    want = {'int_type': 'type'}.get(kind, kind)
    mine = [e for e in items if e['kind'] == want]
    f = {'kind': kind, 'key': key}
    if kind in ('type', 'int_type') and pick([0, 0, 1]):
        f['name'] = pick(['int', 'unsigned char', 'long double', 'char*', 'no_such'] if kind == 'type' else ['int', 'unsigned char', 'char', 'long'])
        if cxx:
            f['name'] = 'no_such'
        return f
    if kind == 'run':
        f.update(reads=pick([None, '5 6', 'x']), prints=pick([None, '5 6', 'y']), exits=pick([0, 0, 0, 3]), name=key, fkind=pick(['function', 'macro', 'variable']))
        return f
    if kind == 'header':
        f['name'] = pick(['h0.h', 'h1.h', 'sub/h2.h', 'no.h', 'stddef.h'])
        return f
    mine += 3 * [x for x in mine if x.get('form') == 'huge']
    e = pick(mine) if mine and draw(st.integers(0, 4)) else pick(items) if items and draw(st.booleans()) else None
    f['name'] = e['name'] if e else 'missing%d' % draw(st.integers(0, 2))
    if e and e['kind'] == 'struct' and kind in ('struct', 'type') and not cxx:
        f['name'] = 'struct ' + f['name']
    elif kind == 'struct' and not cxx:
        f['name'] = 'struct ' + f['name']
    if kind == 'int_type' and e and e['kind'] == 'type' and e['form'] in ('fp', 'function'):
        f['kind'] = 'type'
    if kind == 'struct':
        ms = list(e['members']) if e and e['kind'] == 'struct' else []
        ms = [m for m in ms if draw(st.integers(0, 3))]
        change = draw(st.integers(0, 8))
        if ms and change == 0:
            ms[-1] = ['struct nothing' if not cxx else 'nothing', ms[-1][1]]
        elif change == 1:
            ms.append(['int', 'no'])
        f['members'] = [list(m) for m in ms]
    elif kind == 'fn':
        is_fn = e and e['kind'] == 'fn'
        f.update(ret=e['ret'] if is_fn else 'int', args=list(e['args']) if is_fn else ['int'])
        change = draw(st.integers(0, 8))
        if change == 0:
            f['args'].append('int')
        elif change == 1 and is_fn and e['ret'] == 'void':
            f['ret'] = 'int'
        elif change == 2:
            f['ret'] = 'void'
        if not f['args'] and draw(st.booleans()):
            f['args'] = ['void']
        if is_fn and e['how'] == 'inline' and not e['body'] and f['args'] == e['args'] and draw(st.booleans()) and f['args']:
            f['defaults'] = [pick(['0', 'NULL'] if not cxx else ['0']) if not isinstance(a, str) or a != 'int' else pick([3, '3']) for a in f['args']]
            f['defaults'] = ['0' if x == 'NULL' else x for x in f['defaults']]
    elif kind == 'template':
        n = e['params'] if e and e['kind'] == 'template' else 1
        if draw(st.integers(0, 5)) == 0:
            n += 1
        f['types'] = [pick(['int', 'char']) for _ in range(n)]
    return f


@st.composite
def cases(draw):
    def pick(xs):
        return draw(st.sampled_from(xs))

    comp = pick(['gcc', 'gcc', 'g++'])
    cxx = comp == 'g++'
    case = {'comp': comp, 'headers': []}
    for h in range(draw(st.integers(1, 3))):
        ns = pick([None, 'nn']) if cxx else None
        case['headers'].append({'name': ['h0.h', 'h1.h', 'sub/h2.h'][h], 'ns': ns, 'items': draw(header_items(h, cxx, ns)),
                                'state': pick(['ok', 'ok', 'ok', 'ok', 'missing', 'broken'])})
    nh = len(case['headers'])
    # the classes: the module, the name, and the class they derive from
    classes = []
    for n in range(draw(st.integers(1, 3))):
        mod = pick(['probes_a', 'probes_b']) if n else 'probes_a'
        if mod == 'probes_a' and any(c['mod'] == 'probes_b' for c in classes):
            mod = 'probes_b'
        name = pick(['K0', 'K1'])
        if any((c['mod'], c['cls']) == (mod, name) for c in classes):
            name = 'K%d' % (n + 5)
        parents = [i for i in range(n) if draw(st.integers(0, 2)) > 0]
        if len(parents) == 2:
            pass
        elif parents:
            parents = [pick(parents)]
        if len(parents) == 2 and 0 in classes[1]['parents']:
            # the derived one has to come first
            parents = [1, 0]
        h = draw(st.integers(0, nh - 1))
        if parents and not cxx and draw(st.booleans()):
            h = None
        if parents and cxx and draw(st.booleans()):
            h = None
        c = {'mod': mod, 'cls': name, 'parents': parents, 'header': h if parents else pick([h, h, h, None]), 'fields': [],
             'ns': pick([None, None, case['headers'][h or 0]['ns'], 'nn']) if cxx else None, 'init': pick([0, 0, 0, 1])}
        seen = set()
        for _ in range(draw(st.integers(0 if parents else 1, 4))):
            f = draw(fields(case, h or 0, cxx))
            if f['key'] not in seen:
                seen.add(f['key'])
                c['fields'].append(f)
        classes.append(c)
    case['classes'] = classes
    sessions = []
    for s in range(draw(st.integers(1, 3))):
        edits = []
        for _ in range(draw(st.integers(0, 2)) if s else 0):
            k = pick(['field', 'field', 'header', 'state', 'drop'])
            if k == 'field':
                i = draw(st.integers(0, len(classes) - 1))
                edits.append([k, i, draw(fields(case, classes[i]['header'] or 0, cxx))])
            elif k == 'header':
                edits.append([k, draw(st.integers(0, len(classes) - 1)), draw(st.integers(0, nh - 1))])
            elif k == 'state':
                edits.append([k, draw(st.integers(0, nh - 1)), pick(['ok', 'missing', 'broken'])])
            else:
                edits.append([k, draw(st.integers(0, nh - 1)), draw(st.integers(0, 4))])
        probes = []
        for _ in range(draw(st.integers(2, 5))):
            probes.append({'cls': draw(st.integers(0, len(classes) - 1)), 'variant': pick([0, 0, 0, 1]), 'link': pick([0, 0, 1]),
                           'what': pick(['field'] * 8 + ['get', 'fields', 'fields', 'functions', 'macros', 'types', 'int_types', 'structs', 'variables']),
                           'field': draw(st.integers(0, 7))})
        sessions.append({'edits': edits, 'probes': probes, 'jobs': pick([1, 1, 4])})
    case['sessions'] = sessions
    return case


# the text of the test classes

def py(x):
    if isinstance(x, list):
        return 'c.%s(%s)' % (x[0], ', '.join(map(py, x[1])))
    return repr(x)


def run_test(f):
    return '''
        #include <stdio.h>
        int main() {
            char s[99] = "";
            %s
            printf("%%s", s);
            return %d;
        }
        ''' % ('if (!fgets(s, 99, stdin)) return 1;' if f['reads'] is not None else 'sprintf(s, "5 6");', f['exits'])


def field_text(f, ns):
    k, kw, args = f['kind'], [], []
    if f['name'] != f['key'] and k != 'header':
        kw.append('name=%r' % f['name'])
    if k == 'fn':
        args = [py(f['ret'])] + [py(a) for a in f['args']]
        if f.get('defaults'):
            kw.append('default_args=(%s,)' % ', '.join(map(repr, f['defaults'])))
    elif k == 'struct':
        args = ['(%r, %r)' % tuple(m) for m in f['members']]
    elif k == 'template':
        kw.append('test_types=%r' % f['types'])
    elif k == 'header':
        args = [repr(f['name'])]
    elif k == 'run':
        if f['fkind'] == 'function':
            args = ["'int'", "'int'"]
        kw.append('test=%r' % run_test(f))
        if f['reads'] is not None:
            kw.append('stdin=%r' % f['reads'].encode())
        if f['prints'] is not None:
            kw.append('stdout=%r' % f['prints'].encode())
    cls = {'fn': 'function', 'var': 'variable', 'run': f.get('fkind')}.get(k, k)
    return '    %s = c.%s_test(%s)\n' % (f['key'], cls, ', '.join(args + kw))


class Model:
    def __init__(self, case, root, sizes):
        self.case, self.root, self.sizes = case, root, sizes
        self.cxx = case['comp'] == 'g++'
        self.headers = json.loads(json.dumps(case['headers']))
        self.classes = json.loads(json.dumps(case['classes']))
        self.known = {}
        self.new = 0
        self.maybe = 0

    def write_headers(self):
        for n, h in enumerate(self.headers):
            f = os.path.join(self.root, 'inc', h['name'])
            if h['state'] == 'missing':
                if os.path.exists(f):
                    os.remove(f)
                continue
            write(f, self.header_text(n))

    def header_text(self, n):
        h = self.headers[n]
        t = '\n'.join(declare(e, self.cxx) for e in h['items'])
        if h['ns']:
            t = 'namespace %s {\n%s\n}' % (h['ns'], t)
        if h['state'] == 'broken':
            t += '\n#error broken'
        return '#ifndef H%d\n#define H%d\n%s\n#endif\n' % (n, n, t)

    def write_modules(self):
        out = {}
        for n, c in enumerate(self.classes):
            t = out.setdefault(c['mod'], ['import fbuild.config.%s as c\n' % ('cxx' if self.cxx else 'c')])
            if c['mod'] == 'probes_b' and len(t) == 1:
                t.append('import probes_a\n')
            ps = [self.classes[p] for p in c['parents']]
            t.append('\nclass %s(%s):\n' % (c['cls'], ', '.join(p['cls'] if p['mod'] == c['mod'] else p['mod'] + '.' + p['cls'] for p in ps) or 'c.Test'))
            if c['init']:
                t.append('    def __init__(self, *args, **kwargs):\n        super().__init__(*args, **kwargs)\n'
                         '        self.libpaths.append(%r)\n        self.external_libs.append("probe")\n' % (self.libdir,))
            if c['header'] is not None:
                t.append('    header = c.header_test(%r)\n' % self.headers[c['header']]['name'])
            if c['ns']:
                t.append('    namespace = %r\n' % c['ns'])
            t.extend(field_text(f, c['ns']) for f in c['fields'])
            t.append('    pass\n')
        if self.cxx:
            for t in out.values():
                t.insert(1, 'import fbuild.config.c as fc\n')
        for m, t in out.items():
            # the records of C++ tests are those of C
            write(os.path.join(self.root, m + '.py'), ''.join(t).replace('c.Function(', 'fc.Function(') if self.cxx else ''.join(t))
        shutil.rmtree(os.path.join(self.root, '__pycache__'), ignore_errors=True)
        return sorted(out)

    # the classes

    def mro(self, n):
        """Python's order; the parents only have one line or are independent or derived."""
        out = [n]
        for p in self.classes[n]['parents']:
            out += [x for x in self.mro(p) if x not in out]
        ps = self.classes[n]['parents']
        if len(ps) == 2:
            # a common base comes last
            a, b = self.mro(ps[0]), self.mro(ps[1])
            out = [n] + [x for x in a if x not in b] + b
        return out

    def namespace(self, n):
        return next((self.classes[m]['ns'] for m in self.mro(n) if self.classes[m]['ns']), None)

    def names(self, n):
        """Names of the fields, in order."""
        c = self.classes[n]
        own = (['header'] if c['header'] is not None else []) + [f['key'] for f in c['fields']]
        out = []
        for p in c['parents']:
            out += [k for k in self.names(p) if k not in own and k not in out]
        return out + own

    def lookup(self, n, key):
        for m in self.mro(n):
            c = self.classes[m]
            if key == 'header' and c['header'] is not None:
                return {'kind': 'header', 'key': 'header', 'name': self.headers[c['header']]['name']}
            for f in c['fields']:
                if f['key'] == key:
                    f = dict(f)
                    ns = self.namespace(m)
                    if ns and f['kind'] != 'macro' and not (f['kind'] == 'run' and f['fkind'] == 'macro'):
                        f['label'] = ns + '::' + f['name']
                        if f['kind'] != 'header':
                            f['full'] = ns + '::' + f['name']
                    return f

    # what a probe finds

    def usable(self, name):
        if name == 'stddef.h':
            return True
        return any(h['name'] == name and h['state'] == 'ok' for h in self.headers)

    def find(self, f, header, variant, links):
        """What the compiler has of that name."""
        name = f.get('full', f['name'])
        for h in self.headers:
            for e in h['items']:
                if e['name'] != name.split('::')[-1].split(' ')[-1] or h['name'] != header or (e['alt'] and not variant):
                    continue
                # macros have no namespace
                ns = '::'.join(name.split('::')[:-1])
                if e['kind'] != 'macro' and ns != (h['ns'] or ''):
                    continue
                if (e['kind'] == 'struct') != name.startswith('struct ') and not self.cxx:
                    continue
                return e

    def expect(self, f, header, variant, links):
        k, name = f['kind'], f.get('full', f['name'])
        if k == 'header':
            return f['name'] if self.usable(f['name']) else None
        if k == 'run':
            out = '5 6' if f['reads'] is None else f['reads']
            if f['exits'] or (f['prints'] is not None and f['prints'] != out):
                return None
            return {'function': ['Function', 'int', ['int']], 'macro': ['Macro'], 'variable': ['Variable']}[f['fkind']]
        if header is not None and not self.usable(header):
            # the header was there when it was probed
            return None
        e = self.find(f, header, variant, links)
        if k == 'macro':
            return ['Macro'] if e and e['kind'] == 'macro' else None
        base = name.split('::')[-1].split(' ')[-1]
        if any(i['kind'] == 'macro' and i['name'] == base for h in self.headers if h['name'] == header for i in h['items']):
            return ['maybe']
        if k in ('type', 'int_type'):
            if name in self.sizes['basic']:
                a, s, signed = self.sizes['basic'][name]
            elif e and e['kind'] in ('type', 'struct'):
                key = declare(dict(e, alt=0), self.cxx)
                if key not in self.sizes['cases']:
                    return None
                a, s, signed = self.sizes['cases'][key]
            else:
                return None
            if k == 'type':
                return ['Type', a, s]
            return None if signed is None else ['IntType', a, s, bool(signed)]
        if k == 'struct':
            if not e or e['kind'] != 'struct':
                if e and self.cxx and e['kind'] in ('type', 'template') or e and e['kind'] == 'type':
                    # any type without members to look at; a typedef is not a struct in C
                    return ['maybe']
                return None
            have = {m: t for t, m in e['members']}
            ok = all(have.get(m) == t for t, m in f['members'])
            return ['Struct', f['members']] if ok else None
        if k == 'var':
            if not e:
                return None
            if e['kind'] == 'var':
                return ['Variable']
            if e['kind'] == 'fn':
                return ['Variable']
            if e['kind'] == 'macro':
                return ['maybe']
            return ['maybe']
        if k == 'template':
            return ['Template'] if e and e['kind'] == 'template' and e['params'] == len(f['types']) else None
        if k == 'fn':
            if not e and links and not self.cxx and name.startswith('pl'):
                # C declares it implicitly
                return ['Function', self.plain(f['ret']), [self.plain(a) for a in f['args']]]
            if not e or e['kind'] != 'fn':
                return ['maybe'] if e else None
            args = [a for a in f['args'] if a != 'void']
            if args != e['args']:
                return None
            if f['ret'] != e['ret'] and f['ret'] != 'void':
                return None
            if e['how'] == 'undefined' or (e['how'] == 'lib' and not links):
                return None
            return ['Function', self.plain(f['ret']), [self.plain(a) for a in f['args']]]

    def plain(self, t):
        return ['Function', t[1][0], t[1][1:]] if isinstance(t, list) else t

    def ask(self, p, key):
        """The answer, and whether the compiler has to run for it."""
        n = p['cls']
        f = self.lookup(n, key)
        header = None
        if f['kind'] != 'header' and 'header' in self.names(n):
            header = self.ask(p, 'header')
            if header is None:
                return None
        c = self.classes[n]
        links = p['link'] or any(self.classes[m]['init'] for m in self.mro(n))
        ident = json.dumps([c['mod'], c['cls'], p['variant'], p['link'], key, f, header], sort_keys=True)
        if ident not in self.known:
            self.known[ident] = self.expect(f, header, p['variant'], links)
            self.new += 1
        return self.known[ident]


LISTS = {'functions': {'fn'}, 'macros': {'macro'}, 'types': {'type', 'int_type'}, 'int_types': {'int_type'}, 'structs': {'struct'}, 'variables': {'var'}}
RUNS = {'functions': 'function', 'macros': 'macro', 'variables': 'variable'}


def same(got, want):
    if want == ['maybe']:
        return got is None or isinstance(got, list) and got[0] != 'raised'
    return got == want


def measure(case, cxx, base):
    """Sizes, alignments and signs from the compiler itself."""
    decls = []
    for h in case['headers']:
        structs = [e for e in h['items'] if e['kind'] == 'struct' and not e['alt']]
        for e in h['items']:
            if e['kind'] == 'struct' or e['kind'] == 'type' and e['form'] not in ('function', 'void', 'incomplete'):
                decls.append((e, structs))
    if not decls:
        return {}
    t, main = ['#include <stdio.h>'], []
    done = set()
    for e, structs in decls:
        for s in structs + ([e] if e['kind'] == 'struct' else []):
            if s['name'] not in done:
                done.add(s['name'])
                t.append(declare(dict(s, alt=0), cxx))
        n = ('struct ' if e['kind'] == 'struct' else '') + e['name']
        if e['kind'] == 'type':
            t.append(declare(dict(e, alt=0), cxx))
        scalar = e['kind'] == 'type' and e['form'] in ('plain', 'aligned') and not e['base'].startswith('struct') or e.get('form') == 'enum'
        signed = '(int)((%s)-1 < (%s)1)' % (n, n) if scalar else '0' if e.get('form') == 'pointer' else '2'
        main.append('printf("%%lu %%lu %%d\\n", (unsigned long)__alignof__(%s), (unsigned long)sizeof(%s), %s);' % (n, n, signed))
    t.append('int main(void) {\n%s\nreturn 0; }\n' % '\n'.join(main))
    src = os.path.join(base, 'sizes' + ('.cc' if cxx else '.c'))
    write(src, '\n'.join(t))
    subprocess.run(['/usr/bin/g++' if cxx else '/usr/bin/gcc', '-w', '-o', base + '/sizes', src], check=True)
    out = subprocess.run([base + '/sizes'], check=True, stdout=subprocess.PIPE).stdout.decode().split('\n')
    return {declare(dict(e, alt=0), cxx): [int(a), int(s), None if g == '2' else int(g)]
            for (e, _), (a, s, g) in zip(decls, (l.split() for l in out))}


BASIC_SIZES = {'int': [4, 4, 1], 'unsigned char': [1, 1, 0], 'long double': [16, 16, 1], 'char*': [8, 8, 0], 'char': [1, 1, 1], 'long': [8, 8, 1]}


def run(case, env):
    d = env.scratch()
    try:
        cxx = case['comp'] == 'g++'
        shutil.copytree(env.base + '/cfg-' + case['comp'], d, dirs_exist_ok=True, symlinks=True)
        m = Model(case, d, {'basic': BASIC_SIZES, 'cases': measure(case, cxx, d)})
        m.libdir = env.base + '/lib'
        found = missing = False
        for n, s in enumerate(case['sessions']):
            for e in s['edits']:
                if e[0] == 'field':
                    c = m.classes[e[1]]
                    c['fields'] = [f for f in c['fields'] if f['key'] != e[2]['key']] + [e[2]]
                elif e[0] == 'header':
                    if m.classes[e[1]]['header'] is not None:
                        m.classes[e[1]]['header'] = e[2]
                elif e[0] == 'state':
                    m.headers[e[1]]['state'] = e[2]
                else:
                    items = m.headers[e[1]]['items']
                    if items:
                        x = items[e[2] % len(items)]
                        if x['kind'] != 'struct':
                            items.remove(x)
            m.write_headers()
            modules = m.write_modules()
            probes, wants = [], []
            m.new = 0
            for p in s['probes']:
                q = dict(p, cls=m.classes[p['cls']]['cls'], mod=m.classes[p['cls']]['mod'])
                names = m.names(p['cls'])
                if p['what'] in ('field', 'get'):
                    if not names:
                        continue
                    q['field'] = names[p['field'] % len(names)]
                    if p['what'] == 'field' and p['field'] == 7 and n:
                        q['what'] = 'get'
                    want = m.ask(p, q['field'])
                elif p['what'] == 'fields':
                    want = names
                else:
                    want = []
                    for k in names:
                        f = m.lookup(p['cls'], k)
                        if f['kind'] in LISTS[p['what']] or f['kind'] == 'run' and f['fkind'] == RUNS.get(p['what']):
                            want.append([f.get('full', f.get('label', f['name'])), m.ask(p, k)])
                probes.append(q)
                wants.append(want)
            log = os.path.join(d, 'cclog')
            if os.path.exists(log):
                os.remove(log)
            got = env.call('jobs_cfg', 'session', root=d, tools=env.base + '/tools', engine=ENGINES[case['comp']], jobs=s['jobs'],
                           comp=case['comp'], variants=VARIANTS, modules=modules, probes=probes, timeout=120)
            for p, g, w in zip(probes, got, wants):
                where = 'session %d, %s of %s.%s' % (n, p['field'] if p['what'] in ('field', 'get') else p['what'], p['mod'], p['cls'])
                if p['what'] in ('field', 'get'):
                    ok = same(g, w)
                    found |= g is not None
                    missing |= g is None
                elif p['what'] == 'fields':
                    ok = g == w
                else:
                    ok = len(g) == len(w) and g[:1] != ['raised'] and all(a[0] == b[0] and same(a[1], b[1]) for a, b in zip(g, w))
                    found |= any(x[1] is not None for x in w)
                    missing |= any(x[1] is None for x in w)
                if not ok:
                    raise Fail('%s: %r, expected %r' % (where, g, w))
            count = 0
            if os.path.exists(log):
                with open(log) as f:
                    count = sum('-c' in l.split('\037') for l in f.read().split('\n'))
            if s['jobs'] == 1 and count != m.new or count < m.new or (count and not m.new):
                raise Fail('session %d: the compiler was run %d times, for %d new probes' % (n, count, m.new))
        env.nontrivial(found and missing)
        env.label(case['comp'])
    finally:
        env.clean(d)


def setup(env):
    if os.path.exists(env.base + '/tools'):
        return
    os.makedirs(env.base + '/tools')
    for n in ('gcc', 'g++', 'ar', 'ranlib'):
        f = env.base + '/tools/' + n
        write(f, WRAPPER % (n, n))
        os.chmod(f, 0o755)
    write(env.base + '/lib/p.c', ''.join('int pl%d_%d(int x) { __builtin_abort(); return x; }\n' % (h, i) for h in range(3) for i in range(NPL)))
    subprocess.run(['/usr/bin/gcc', '-c', env.base + '/lib/p.c', '-o', env.base + '/lib/p.o'], check=True)
    subprocess.run(['/usr/bin/ar', 'rcs', env.base + '/lib/libprobe.a', env.base + '/lib/p.o'], check=True)
    for comp in ENGINES:
        d = env.base + '/cfg-' + comp
        os.makedirs(d)
        env.call('jobs_cfg', 'prepare', root=d, tools=env.base + '/tools', engine=ENGINES[comp], comp=comp, variants=VARIANTS, timeout=120)


# programs tried directly

@st.composite
def direct_cases(draw):
    def pick(xs):
        return draw(st.sampled_from(xs))

    comp = pick(['gcc', 'gcc', 'g++'])
    tasks = []
    for n in range(draw(st.integers(1, 8))):
        what = pick(['try_compile', 'check_compile', 'try_link_lib', 'check_link_lib', 'try_link_exe', 'check_link_exe', 'try_run', 'check_run', 'tempfile_run', 'tempfile_run',
                     'check_header_exists', 'check_types_exist', 'check_macros_exist', 'check_functions_exist'])
        t = {'what': what, 'variant': pick([0, 0, 1]), 'n': n, 'fault': pick(['', '', '', 'syntax', 'macro', 'undefined', 'exit', 'crash']),
             'macros': pick([[], [], ['NEED=1']]), 'input': pick([None, None, 'a b', '']), 'names': sorted(draw(st.sets(st.integers(0, 7), max_size=4)))}
        tasks.append(t)
    return {'comp': comp, 'jobs': pick([1, 4, 4]), 'tasks': tasks}


DIRECT_HEADER = """#ifndef D
#define D
typedef long d_type0;
struct d_s { int x; };
typedef struct d_s d_type1;
#define d_macro0
#define d_macro1 1
static inline int d_fn0(void) { return 1; }
static inline void d_fn1(int x) { }
#ifdef ALT
typedef int d_type2;
#define d_macro2 2
static inline int d_fn2(void) { return 2; }
#endif
#endif
"""


def direct_task(t):
    """The call, and what is expected of it."""
    n, f, what = t['n'], t['fault'], t['what']
    kw = {}
    if what == 'check_header_exists':
        h = ['d.h', 'no.h', 'stddef.h', 'sub/d 2.h'][n % 4]
        return {'args': [h], 'kw': kw}, h != 'no.h'
    names = t['names']
    ok = {0, 1, 2} if t['variant'] else {0, 1}
    if what == 'check_types_exist':
        args = [['d_type%d' % i, 'd_type%d x[2]; (void)x;' % i] if i % 2 else 'd_type%d' % i for i in names]
        return {'args': args, 'kw': {'headers': ['d.h']}}, sorted('d_type%d' % i for i in names if i in ok)
    if what == 'check_macros_exist':
        return {'args': ['d_macro%d' % i for i in names], 'kw': {'headers': ['d.h']}}, sorted('d_macro%d' % i for i in names if i in ok)
    if what == 'check_functions_exist':
        args = [['d_fn%d' % i, '(void)&d_fn%d;' % i if i != 3 else 'd_fn0(3);'] for i in names]
        return {'args': args, 'kw': {'headers': ['d.h']}}, sorted('d_fn%d' % i for i in names if i in ok)
    code = '#include <stdio.h>\n'
    if f == 'macro':
        code += '#ifndef NEED\n#error needed\n#endif\n'
    if f == 'undefined':
        code += 'extern int nowhere%d(int);\n' % n
    code += """
        int f%d(int x) { return x; }
        int main(int argc, char** argv) {
            char s[99] = "";
            %s
            printf("%d:%%s", fgets(s, 99, stdin) ? s : "");
            %s
            return %d;
        }
    """ % (n, 'syntax error' if f == 'syntax' else 'nowhere%d(1);' % n if f == 'undefined' else '', n,
           'fflush(stdout); __builtin_trap();' if f == 'crash' else '', n + 1 if f == 'exit' else 0)
    kind = what.split('_')[1]
    bad = f == 'syntax' or f == 'macro' and not t['macros']
    if t['macros']:
        if kind == 'compile':
            kw['macros'] = t['macros']
        else:
            kw['ckwargs'] = {'macros': t['macros']}
    if kind == 'compile':
        want = not bad
    elif kind == 'link':
        want = not bad and (f != 'undefined' or 'lib' in what)
    else:
        if t['input'] is not None:
            kw['input'] = t['input']
        want = not bad and f not in ('undefined', 'exit', 'crash')
    if what == 'tempfile_run':
        text = '%d:%s' % (n, t['input'] or '')
        if want:
            return {'code': code, 'kw': kw}, [text, '']
        code_ = n + 1 if f == 'exit' else -4 if f == 'crash' else 1
        return {'code': code, 'kw': kw}, ['failed', code_]
    return {'args': [code] + (['checking'] if what.startswith('check') else []), 'kw': kw}, want


def run_direct(case, env):
    d = env.scratch()
    try:
        shutil.copytree(env.base + '/cfg-' + case['comp'], d, dirs_exist_ok=True, symlinks=True)
        write(d + '/inc/d.h', DIRECT_HEADER)
        write(d + '/inc/sub/d 2.h', '')
        tasks, wants = [], []
        for t in case['tasks']:
            q, w = direct_task(t)
            q.update(what=t['what'], variant=t['variant'])
            tasks.append(q)
            wants.append(w)
        got = env.call('jobs_cfg', 'direct', root=d, tools=env.base + '/tools', engine=ENGINES[case['comp']], jobs=case['jobs'],
                       comp=case['comp'], variants=VARIANTS, tasks=tasks, timeout=120)
        for t, g, w in zip(tasks, got, wants):
            if g != w:
                raise Fail('%s: %r, expected %r' % (t['what'], g, w))
        env.nontrivial(any(w in (True, []) or isinstance(w, list) and w[0] != 'failed' for w in wants) and
                       any(w is False or isinstance(w, list) and w[:1] in ([], ['failed']) for w in wants))
    finally:
        env.clean(d)


# the results themselves

def leaf():
    return st.one_of(st.sampled_from(['int', 'void', 'char*']),
                     st.recursive(st.just(['Function', ['int']]), lambda x: st.tuples(st.just('Function'), st.lists(
                         st.one_of(st.sampled_from(['int', 'void', 'char*']), x), min_size=1, max_size=3)).map(list), max_leaves=3))


def record_items():
    n = st.integers(0, 3)
    return st.lists(st.one_of(
        st.tuples(st.just('Function'), st.lists(leaf(), min_size=1, max_size=3)),
        st.tuples(st.just('Macro'), st.just([])), st.tuples(st.just('Variable'), st.just([])),
        st.tuples(st.just('Type'), st.tuples(n, n).map(list)),
        st.tuples(st.just('IntType'), st.tuples(n, n, st.booleans()).map(list)),
        st.tuples(st.just('Struct'), st.lists(st.tuples(st.sampled_from(['int', 'char*']), st.sampled_from(['a', 'b'])).map(
            lambda t: {'tuple': list(t)}), max_size=3)),
    ).map(list), min_size=1, max_size=6)


def run_records(case, env):
    rows, reprs = env.call('jobs_cfg', 'records', fork=False, items=case)
    for i, row in enumerate(rows):
        if not reprs[i]:
            raise Fail('the repr of %r is another value' % (case[i],))
        for j, (eq, ne, h) in enumerate(row):
            want = case[i] == case[j] and [type(x) for x in case[i][1]] == [type(x) for x in case[j][1]]
            if eq != want or ne == eq or want and not h:
                raise Fail('%r and %r: == is %r, != is %r, the same hash: %r' % (case[i], case[j], eq, ne, h))
    env.nontrivial(len(case) > 1 and any(case[i] == case[j] for i in range(len(case)) for j in range(i)))


PARTS = [Part('headers', lambda tier: cases(), run, 220, 10000, setup=setup),
         Part('direct', lambda tier: direct_cases(), run_direct, 100, 4000, setup=setup),
         Part('records', lambda tier: record_items(), run_records, 300, 10000)]
