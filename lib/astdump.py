"""Clang AST dumps: rendering abstract ones, reading the ones Clang makes."""
import json, os, re
from common import *
from front import Case, toks, event as front_event

KIND = {'func': 'FunctionDecl', 'var': 'VarDecl', 'parm': 'ParmVarDecl'}


def clang_type(ts):
    """tokens of a type the way Clang prints them"""
    s = ''
    for k, t in enumerate(ts):
        p = ts[k - 1] if k else ''
        if k and not (t in (',', ')', '[', ']') or p in ('(', '[') or (p == '*' and t != '...') or (t == '(' and p in (')', '__attribute__'))):
            s += ' '
        s += t
    return s


def line(d, k, nm='', ty=(), ds=(), un=False):
    return {'d': d, 'k': k, 'nm': nm, 'ty': list(ty), 'ds': list(ds), 'un': un}


def glyphs(ls):
    """tree drawing in front of each line"""
    out = []
    for i, l in enumerate(ls):
        g = ''
        for d in range(1, l['d'] + 1):
            last = True
            for m in ls[i + 1:]:
                if m['d'] < d:
                    break
                if m['d'] == d:
                    last = False
                    break
            if d < l['d']:
                g += '  ' if last else '| '
            else:
                g += '`-' if last else '|-'
        out.append(g)
    return out


class Style:
    def __init__(self, rng):
        self.rng = rng
        self.color = rng.random() < .4
        self.crlf = rng.random() < .25
        self.bom = rng.random() < .05
        self.header = rng.choice(['<<invalid sloc>> <invalid sloc>'])
        self.noend = rng.random() < .2

    def loc(self):
        r = self.rng
        return r.choice(['col:%d', 'line:%d:7', '/usr/include/x.h:%d:3', "./a b.h:%d:1", 'foo.h:%d:5', 'C:\\x\\y.h:%d:1']) % r.randrange(1, 99)

    def render(self, ls):
        r = self.rng
        o = []
        c = (lambda n, s: f'\x1b[{n}m{s}\x1b[0m') if self.color else (lambda n, s: s)
        addr = lambda: c('0;33', ' 0x%x' % r.randrange(1 << 40, 1 << 44))
        o.append(c('0;1;32', 'TranslationUnitDecl') + addr() + ' ' + (f'<{c("0;33", "<invalid sloc>")}> {c("0;33", "<invalid sloc>")}'))
        for g, l in zip(glyphs(ls), ls):
            k = KIND.get(l['k'], l['k'])
            s = c('0;34', g) + c('0;1;34' if k.endswith('Attr') else '0;1;32', k) + addr()
            if r.random() < .1 and l['k'] in ('func', 'var'):
                s += ' prev 0x%x' % r.randrange(1 << 40, 1 << 44)
            s += ' <' + c('0;33', self.loc()) + (', ' + c('0;33', self.loc()) if r.random() < .7 else '') + '>'
            if l['k'] in KIND:
                s += ' ' + c('0;33', self.loc())
                s += r.choice(['', '', '', ' used', ' referenced', ' implicit used', ' implicit']) if l['k'] != 'parm' else r.choice(['', ' used'])
                if l['nm']:
                    s += c('0;1;36', ' ' + l['nm'])
                ty = "'" + clang_type(l['ty']) + "'"
                if l['ds']:
                    ty += ":'" + clang_type(l['ds']) + "'"
                s += ' ' + c('0;32', ty)
                s += r.choice(['', '', ' extern', ' static', ' inline', ' static inline', ' cinit', ' implicit-inline', ' nrvo']) if l['k'] != 'parm' else ''
            elif k.endswith('Attr'):
                s += ' ' + r.choice(['Default', "1 0", 'Implicit', "'x'", "\"x 'int (int)'\""])
            elif k == 'TypedefDecl':
                s += " col:5 referenced fn_t 'int (int)'"
            elif k == 'RecordDecl':
                s += ' line:3:8 struct foo definition'
            elif k == 'FieldDecl':
                s += " col:5 referenced f 'int (*)(int)'"
            elif k == 'FunctionProtoType':
                s += " 'int (int)' cdecl"
            else:
                s += r.choice(['', " 'int'", " f 'int (int)'", ' Text=" int f(int);"', " 'char[4]' lvalue \"|-FunctionDecl 0x1 x 'int ()'\""])
            o.append(s)
        nl = '\r\n' if self.crlf else '\n'
        t = nl.join(o) + ('' if self.noend else nl)
        return ('\xef\xbb\xbf' if self.bom else '') + t


class AstCase(Case):
    __slots__ = ('lines', 'all')

    def __init__(self, text, lines, p=(), sy=(), all=False):
        super().__init__(text, p, sy, 'read')
        self.lines, self.all = lines, all

    def args(self):
        return [a for a in super().args() if not a.startswith('-param')][:-1] + (['-ast-all-symbols'] if self.all else []) + ['-']


def event(c, res):
    e = front_event(c, res)
    del e['cs'], e['s'], e['inc'], e['mode']
    e['s'] = ''
    e['lines'], e['all'] = c.lines, c.all
    return e


# --------------------------------------------------------- dumps made by Clang
UN = re.compile(r'\((unnamed|anonymous) ')


def json_lines(node, d=1, out=None, maxd=2):
    """abstract lines from the JSON form of the same dump"""
    out = [] if out is None else out
    for n in node.get('inner', []):
        if not n or 'kind' not in n:
            continue
        k = {'FunctionDecl': 'func', 'VarDecl': 'var', 'ParmVarDecl': 'parm'}.get(n['kind'], n['kind'])
        t = n.get('type', {})
        q, ds = t.get('qualType', ''), t.get('desugaredQualType', '')
        if k not in ('func', 'var', 'parm'):
            q = ds = ''
        out.append(line(d, k, n.get('name', ''), toks(q.encode()), toks(ds.encode()) if ds and ds != q else [], bool(UN.search(q))))
        if d < maxd:
            json_lines(n, d + 1, out, maxd)
    return out


def clang_dump(path, color=False, flags=()):
    cmd = ['clang', '-fsyntax-only', '-w', *flags, '-fcolor-diagnostics' if color else '-fno-color-diagnostics', '-Xclang']
    r = run(cmd + ['-ast-dump', path], cwd=os.path.dirname(path))
    j = run(cmd + ['-ast-dump=json', path], cwd=os.path.dirname(path))
    if r.returncode or j.returncode:
        return None, None, (r.stderr or j.stderr).decode('utf8', 'replace')
    return r.stdout, json_lines(json.loads(j.stdout)), ''
