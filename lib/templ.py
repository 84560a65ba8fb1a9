"""Symbols, templates and events for TemplateTrace.tla."""
import os, re
import common as c
from front import toks
from manyrun import many

TYPES = ['int', 'void', 'char *', 'unsigned int', 'const char *const *', 'struct s *', 'VOID', 'double', 'my_type', 'Void *', 'long long']
ARGS = [('void', ''), ('int a', 'a'), ('int a, char *b', 'a, b'), ('const char *fmt, ...', 'fmt'), ('int (*cb)(int, void *), void *data', 'cb, data'),
        ('unsigned long x, double y, struct s *z', 'x, y, z'), ('my_type t', 't')]
UARGS = ['void', 'int', 'int, char *', 'const char *, ...', 'unsigned long, double, struct s *']
OTYPES = ['int', 'char *', 'const char *const', 'struct s', 'unsigned long long', 'void *', 'my_type *', 'FP', 'ARR', 'FPP']
DERIVED = {'FP': 'int (*%s)(int a)', 'ARR': 'char %s[3][N]', 'FPP': 'void *(*%s)(void)'}


class Symbols:
    """declarations with the data placeholders stand for"""

    def __init__(self, fn, ob, mode):
        self.fn, self.ob, self.mode = fn, ob, mode
        sp = lambda t: t if t.endswith('*') else t + ' '
        decl = lambda t, n: DERIVED[t] % n if t in DERIVED else sp(t) + n
        self._text = ''.join(f'{sp(t)}{n}({a});\n' for t, n, a, p in fn) + ''.join(decl(t, n) + ';\n' for t, n in ob)
        # fn: [type, name, args, pn], ob: [type, name]

    def text(self):
        return self._text

    def json(self, pfx):
        """objects with a derived type have a type name of their own"""
        low = re.sub('[^a-z0-9]', '_', pfx.lower())
        own = lambda o: [f'{low}_{o[1]}__t', o[1]] if o[0] in DERIVED else o
        return {'fn': [dict(zip(('type', 'name', 'args', 'pn'), f)) for f in self.fn], 'ob': [dict(zip(('type', 'name'), own(o))) for o in self.ob]}


def random_symbols(rng, mode, nf=None, no=None):
    nf = rng.choice([0, 1, 1, 2, 3, 5]) if nf is None else nf
    no = rng.choice([0, 0, 1, 2, 4]) if no is None else no
    if nf + no == 0:
        nf = 1
    names = []
    while len(names) < nf + no:
        n = rng.choice(['f', 'foo', 'foo_bar', 'gdo_x', 'GDO_Y', 'x', 'a_rather_long_symbol_name', 'Foo9']) + rng.choice(['', str(len(names)), '_' * rng.randrange(3)])
        if n not in names:
            names.append(n)
    fn = []
    for k in range(nf):
        a, p = rng.choice(ARGS) if mode != 'create' else (rng.choice(UARGS), '')
        fn.append([rng.choice(TYPES), names[k], a, p])
    return Symbols(fn, [[rng.choice(OTYPES), names[nf + k]] for k in range(no)], mode)


REF = 'R|%%func_symbol%%|%%args%%|%%param_names%%|\n'


def resolve(tool, sets):
    """fill in the strings the tool uses for types and arguments (spacing, created names); they must be what was declared"""
    w = c.sub('templref')
    ref = os.path.join(w, 'ref')
    open(ref, 'w').write(REF)
    res = many(tool, [(['-print-symbols', '-param=' + s.mode, '-'], s.text().encode()) for s in sets])
    res2 = many(tool, [(['-template=' + ref, '-param=' + s.mode, '-'], s.text().encode()) for s in sets])
    out = []
    for s, (st, so, se), (st2, so2, se2) in zip(sets, res, res2):
        if st or st2:
            out.append(None)
            continue
        rf = {}
        for l in so2.decode('latin-1').split('\n'):
            if l.startswith('R|'):
                p = l.split('|')
                rf[p[1]] = p[2:]
        lines = so.decode('latin-1').split('\n')
        good = True
        for f in s.fn:
            m = [re.match(r'^(.*[ *])' + re.escape(f[1]) + r'\((.*)\);$', l) for l in lines]
            m = [x for x in m if x]
            if len(m) != 1 or toks(m[0].group(1).encode()) != toks(f[0].encode()) or f[1] not in rf or \
                    (s.mode != 'create' and toks(m[0].group(2).encode()) != toks(f[2].encode())):
                good = False
                break
            t, f[2] = m[0].group(1), m[0].group(2)
            f[0] = t if t.endswith('*') else t[:-1]
            if s.mode == 'skip':
                f[3] = ''
            elif s.mode == 'create':
                f[3] = rf[f[1]][1]
            elif toks(rf[f[1]][1].encode()) == toks(f[3].encode()):
                f[3] = rf[f[1]][1]
        for o in s.ob:
            if o[0] in DERIVED:
                continue
            m = [re.match(r'^(.*[ *])' + re.escape(o[1]) + ';$', l) for l in lines]
            m = [x for x in m if x]
            if len(m) != 1 or toks(m[0].group(1).encode()) != toks(o[0].encode()):
                good = False
                break
            t = m[0].group(1)
            o[0] = t if t.endswith('*') else t[:-1]
        out.append(s if good else None)
    return out


def split(b):
    """-> lines (the last one may be unterminated)"""
    s = b.decode('latin-1')
    if s == '':
        return []
    ls = s.split('\n')
    return ls[:-1] if ls[-1] == '' else ls


def builtin(name):
    with open(os.path.join(c.REPO, 'src', 'templates', name), 'rb') as f:
        return split(f.read().replace(b'\r\n', b'\n'))


HEADERS = {'C': (['common.h', 'common.c', 'c.h', 'c.c'], ['common.h', 'c.h'], ['common.c', 'c.c']),
           'C++': (['common.h', 'common.c', 'cxx.hpp', 'cxx.cpp'], ['common.h', 'cxx.hpp'], ['common.c', 'cxx.cpp']),
           'plugin': (['common.h', 'common.c', 'plugin.h', 'plugin.c'], ['common.h', 'plugin.h'], ['common.c', 'plugin.c']),
           'minimal': (['minimal.h'], ['minimal.h'], []),
           'minimal-C++': (['minimal_cxxeh.hpp'], ['minimal_cxxeh.hpp'], [])}
ALL = ['license.h', 'filename_macros.h', 'common.h', 'common.c', 'c.h', 'c.c', 'cxx.hpp', 'cxx.cpp', 'minimal.h', 'minimal_cxxeh.hpp', 'plugin.h', 'plugin.c']
