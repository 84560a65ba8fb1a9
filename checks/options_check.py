#!/usr/bin/env python3
"""C20, C23: command lines and %option lines against spec/Options.tla (judged by OptionsTrace.tla)"""
import json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import front as F
from manyrun import many

DECLS = [
    [('foo_a', 0, 0), ('foo_b', 1, 0), ('foo_v', 0, 1)],
    [('foo_a', 0, 0)],
    [('foo_b', 0, 0), ('bar', 1, 0), ('foo_va', 1, 0)],
    [('foo_v', 0, 1)],
    [('foo_v', 0, 1), ('foo_val', 0, 1), ('foo_', 0, 0)],
    [('foo_ab', 1, 0), ('foo_a', 1, 0), ('foo_b', 0, 0), ('foo_abc', 0, 0), ('foo_v', 0, 1)],
    [('x', 0, 0), ('foo_b', 0, 0), ('foo_v', 0, 1)],
]
DATE = re.compile(rb'generated by gendlopen on \w{3} \d{4}-\d\d-\d\d \d\d:\d\d:\d\d [+-]\d{4}\.')
TPLS = ('license.h', 'filename_macros.h', 'common.h', 'common.c', 'c.h', 'c.c', 'cxx.hpp', 'cxx.cpp', 'plugin.h', 'plugin.c', 'minimal.h', 'minimal_cxxeh.hpp')


def decl(d):
    n, va, obj = d
    if va and n in ('bar', 'foo_ab'):
        return f'int {n}(...);'  # (C++ and C23)
    return f'extern int {n};' if obj else f'int {n}(const char *a{", ..." if va else ""});'


def text(lines, ds, rng, optional=True):
    """declarations with the %option lines somewhere between them"""
    at = sorted(rng.randint(0, len(ds)) for _ in lines)
    out, k = [], 0
    for i in range(len(ds) + 1):
        while k < len(lines) and at[k] == i:
            if optional:
                sep = rng.choice([' ', ' ', '\t', '  ', ' \\\n '])
                out.append('%option' + rng.choice([' ', '\t', '  ']) + sep.join(lines[k]) + rng.choice(['', '', ' ']))
            k += 1
        if i < len(ds):
            out.append(decl(ds[i]))
    return '\n'.join(out) + '\n'


def section(b, title):
    """the lines after a title, up to an empty line"""
    ls = b.split(b'\n')
    if title not in ls:
        return []
    k = ls.index(title) + 1
    return [l.decode('latin-1') for l in ls[k:ls.index(b'', k) if b'' in ls[k:] else len(ls)]]


NOFACTS = {'seen': False, 'dated': False, 'guard': [], 'defs': [], 'incs': [], 'line': False, 'parts': []}


def facts(b):
    if b is None or b'automatically generated by gendlopen' not in b[:200]:
        return dict(NOFACTS)
    ls = b.split(b'\n')
    parts = []
    for l in ls:
        m = re.match(rb'//MARK (\S+)', l)
        if m and (not parts or parts[-1] != m.group(1).decode()):
            parts.append(m.group(1).decode())
    guard = []
    for k, l in enumerate(ls):
        if l == b'#pragma once' or l.startswith(b'#ifndef '):
            guard = [x.decode('latin-1') for x in ([l] if l.startswith(b'#p') else ls[k:k + 2])]
            break
    return {'seen': True, 'dated': bool(DATE.search(b[:200])), 'guard': guard, 'defs': section(b, b'/* extra defines */'), 'incs': section(b, b'/* extra headers */'),
            'line': any(l.startswith(b'#line ') for l in ls), 'parts': parts}


class Runner:
    def __init__(self, ck):
        self.ck = ck
        t = F.static_tool()
        os.chmod(c.scratch(), 0o711)
        d = c.sub('bin')
        os.chmod(d, 0o755)
        shutil.copy2(t, d + '/gendlopen')
        os.chmod(d + '/gendlopen', 0o755)
        self.tool = d + '/gendlopen'
        mk = c.sub('mk')
        os.chmod(mk, 0o755)
        for f in TPLS:
            with open(os.path.join(mk, f), 'w') as o:
                o.write(f'//MARK {f}\n' + ('' if f == 'license.h' else f'int gdo_%%symbol%%_GDO_X;\n//MARK {f} end\n' if f != 'filename_macros.h' else '#define GDO_X gdo\n'))
        self.mk = mk
        self.n = 0

    def run(self, jobs):
        """jobs: (argv, text) -> (status, stdout, stderr, {file: bytes})"""
        w = c.sub('opts')
        specs, dirs = [], []
        for argv, t in jobs:
            d = os.path.join(w, f'd{self.n}')
            self.n += 1
            os.mkdir(d)
            with open(d + '/in.h', 'w') as f:
                f.write(t)
            with open(d + '/t.txt', 'w') as f:
                f.write('T %%symbol%% gdo_x\nF %%func_symbol%% %%type%% %%param_names%%\nGDO_\n')
            os.symlink(self.mk, d + '/mk')
            if os.getuid() == 0:
                os.chown(d, 65534, 65534)
            dirs.append(d)
            specs.append((argv, t.encode(), {'cwd': d}))
        res = many(self.tool, specs)
        out = []
        for d, (st, so, se) in zip(dirs, res):
            fs = {}
            for r, ds, ff in os.walk(d):
                for x in ff:
                    p = os.path.relpath(os.path.join(r, x), d)
                    if p not in ('in.h', 't.txt'):
                        fs[p] = DATE.sub(b'generated by gendlopen on DATE.', b) if not (b := open(os.path.join(r, x), 'rb').read()) is None else b''
                        fs['\0' + p] = b
            out.append((st, so, se, fs))
            shutil.rmtree(d)
        return out


EFFECTS = ('other files than named', 'no output', 'date', 'header guard', '#line directives', 'defines', 'includes', 'templates of the header', 'templates of the body')


def judge(ck, rn, cases, what):
    """cases: (argv, lines, decls, text, text without %option lines)"""
    ev = [{'argv': a, 'lines': [list(l) for l in ls], 'decls': [{'name': d[0], 'va': bool(d[1]), 'obj': bool(d[2])} for d in ds]} for a, ls, ds, _, _ in cases]
    canon = {}

    def one(idx):
        p = os.path.join(c.sub('canon'), f'{idx[0]}.ndjson')
        with open(p, 'w') as f:
            for i in idx:
                f.write(json.dumps(ev[i]) + '\n')
        rc, out = c.tlc('OptionsCanon', 'SPECIFICATION Spec\n', env={'TRACE': p}, heap='2g')
        got = [(int(i), json.loads(json.loads('"' + x + '"'))) for i, x in re.findall(r'"CANON (\d+) (.*)"', out)]
        if rc or len(set(i for i, _ in got)) != len(idx):
            raise c.Broken('OptionsCanon: ' + out[-1500:])
        return [(idx[i - 1], x) for i, x in got]
    n = max(1, min(c.JOBS, len(ev) // 200 + 1))
    for r in c.pmap(one, [list(range(k, len(ev), n)) for k in range(n)], c.JOBS):
        canon.update(r)
    got = rn.run([(x[0], x[3]) for x in cases])
    ref = {}
    for i, x in enumerate(cases):
        if canon[i]:
            ref.setdefault((tuple(canon[i]), x[4]), len(ref))
    keys = list(ref)
    refs = dict(zip(keys, rn.run([(list(k[0]), k[1]) for k in keys])))
    full, idx = [], []
    for i, x in enumerate(cases):
        st, so, se, fs = got[i]
        if F.crash(st):
            ck.violation('crash ' + str(x[0]), f'{what}: the tool ended with status {st}: {x[0]} {x[1]}', {'args': x[0], 'input': x[3], 'stderr': se[-300:].decode('latin-1')})
            continue
        e = ev[i]
        same = True
        if canon[i]:
            r = refs[(tuple(canon[i]), x[4])]
            m = lambda b: DATE.sub(b'generated by gendlopen on DATE.', b)
            pub = lambda f: {k: v for k, v in f.items() if k[0] != '\0'}
            same = r[0] == st and m(r[1]) == m(so) and pub(r[3]) == pub(fs)
        names = sorted(k for k in fs if k[0] != '\0')
        raw = lambda f: fs.get('\0' + f)
        hdr = next((f for f in names if f.endswith(('.h', '.hpp'))), names[0] if names else None)
        bod = next((f for f in names if f.endswith(('.c', '.cpp')) and f != hdr), None)
        e.update(st=0 if st == 0 else 1, msg=bool(se.strip()), same=same, files=names, text=bool(so), head=facts(raw(hdr) if hdr else so), body=facts(raw(bod) if bod else None))
        full.append(e)
        idx.append(i)
    bad, n = F.judge(full, 'OptionsTrace')
    if n != len(full):
        raise c.Broken('events lost')
    # what is made of the settings is C23, how they are given C20
    bad = [b for b in bad if (b[1] in EFFECTS) == (ck.prop == 'C23')]
    for k, why in sorted(bad, key=lambda b: len(full[b[0]]['argv']) + len(full[b[0]]['lines']))[:12]:
        x = cases[idx[k]]
        ck.violation(f'{why} {x[0]} {x[1]}', f'{what}: {why}: arguments {x[0]}' + (f' %option lines {x[1]}' if x[1] else ''),
                     {'reason': why, 'args': x[0], 'input': x[3], 'canonical': canon[idx[k]], 'status': got[idx[k]][0], 'stderr': got[idx[k]][2][-300:].decode('latin-1'), 'event': full[k]})
    return len(full), len(keys), sum(1 for e in full if e['st'] == 0)


def spell(o, v, rng):
    if o in 'DPS':
        return rng.choice([['-' + o + v], ['-' + o, v]])
    if v is None:
        return [rng.choice(['-', '--']) + o]
    p = rng.choice(['-', '--']) + o
    return rng.choice([[p + '=' + v], [p, v]])


def ident(rng):
    return ''.join(rng.choice('abcxyzABZ019_') for _ in range(rng.randint(1, 6)))


def value(o, rng):
    i = ident(rng)
    return {'format': lambda: ''.join(rng.choice((x.lower(), x.upper())) for x in rng.choice(['c', 'cxx', 'c++', 'cpp', 'minimal', 'minimal-c', 'minimal-cxx', 'minimal-c++', 'minimal-cpp', 'plugin', 'plugin-c'] + (['x', 'c+', 'minimal-', 'plugin-cxx'] if rng.random() < .08 else []))),
            'param': lambda: rng.choice(['skip', 'create', 'read', 'SKIP', 'Create', 'rEad'] + (['none', 'reads'] if rng.random() < .08 else [])),
            'prefix': lambda: rng.choice([i, i + '-' + i, 'GDO', 'Gdo', 'a b', i + '.1', 'l' + i]),
            'include': lambda: rng.choice([i + '.h', f'<{i}>', f'"{i}.h"', 'nq:' + i, 'nQ:<' + i, '<' + i, i + '"', 'a b.h', 'n', 'nq']),
            'library': lambda: rng.choice([i, i + '.dll', 'lib' + i + '.so.1', 'nq:' + i, 'ext:' + i, 'api:1:' + i, 'API:' + i + ':' + i, f'"{i}"', 'n', 'e', 'a', 'nq', 'ext' + i, 'Api', 'a:' + i, 'N' + i, 'E' + i, 'C:\\' + i, '../' + i]),
            'out': lambda: rng.choice(['o', 'o.h', 'x.hpp', 'o.c', 'o.txt', '-', 'O2', i]),
            'D': lambda: rng.choice([i, i + '=' + i, i + '=', f' {i} = {i} ', i + '==', i + '(x)=x', '=' + i, i + '="a b"', 'D', 'P=1']),
            'P': lambda: rng.choice(['foo_', 'foo', 'f', 'foo_a', 'ba', 'x', 'zz', 'foo_v']),
            'S': lambda: rng.choice(['foo_a', 'foo_b', 'foo_v', 'bar', 'x', 'foo_ab', 'foo', 'FOO_A']),
            'template': lambda: 't.txt', 'templates-path': lambda: rng.choice(['mk', 'mk/'])}[o]()


def compiled(ck, rng):
    """what the compiler makes of libraries and defines: spec/SettingsTrace.tla"""
    ev = []
    jobs = []
    for k in range(1500 if c.THOROUGH else 160):
        fmt = rng.choice(['c', 'cxx', 'minimal', 'minimal-cxx', 'plugin'])
        n = rng.choice(['foo', 'n', 'e', 'a', 'nq', 'ext', 'api', 'lib_1', 'Nx', 'Ex', 'Ax', 'z'])
        lib = rng.choice(['', n, n + '.dll', n + '.so.2', 'a b', 'ext:' + n, 'EXT:' + n + '.x', 'api:2:' + n, 'api:1.2:' + n, 'API:x:' + n, 'api:3:x:' + n, f'"{n}"', 'nq:"' + n + '"', '/d/' + n])
        D = [rng.choice(['A', 'B', 'LONGER_1']) + rng.choice(['', '=', '=1', '=2', '=x y', '=(3)', '=f(x)', '= z', '==']) for _ in range(rng.randint(0, 4))]
        pre = rng.sample(['A', 'B', 'LONGER_1'], rng.choice([0, 0, 1, 2]))
        jobs.append((fmt, lib, D, pre, rng.random() < .5, rng.random() < .5, rng.random() < .4))
    tool = F.static_tool()
    w = c.sub('settings')

    def one(a):
        k, (fmt, lib, D, pre, once, opt, pfx) = a
        d = os.path.join(w, str(k))
        os.mkdir(d)
        cxx = 'cxx' in fmt
        up = 'MY' if pfx else 'GDO'
        args = ['-format=' + fmt, '-no-date', '-out=' + d + '/h.h', '-prefix=' + up.lower()] + ([] if once else ['-no-pragma-once'])
        line = ''
        if opt and ' ' not in lib + ''.join(D):
            line = '%option ' + ' '.join(['D=' + x for x in D] + (['library=' + lib] if lib else [])) + '\n'
        else:
            args += [x for y in D for x in ('-D', y)] + (['-library=' + lib] if lib else [])
        with open(d + '/in.h', 'w') as f:
            f.write(line + 'int zz_a(int x);\nint zz_b(int x);\n')
        r = c.run([tool] + args + [d + '/in.h'])
        if r.returncode:
            return {'why': 'not accepted: ' + r.stderr.decode()[:200]}
        m = d + '/m.' + ('cc' if cxx else 'c')
        with open(m, 'w') as f:
            f.write(''.join(f'#define {x} mine\n' for x in pre) + '#include "h.h"\n#include "h.h"\n#include <stdio.h>\n#include <wchar.h>\n#define S_(...) #__VA_ARGS__\n#define S(x) S_(x)\n'
                    'static void lib(const char *a, const wchar_t *w) { size_t i; int same = wcslen(w) == strlen(a); for (i = 0; same && a[i]; i++) if ((wchar_t)a[i] != w[i]) same = 0; printf("lib %s %s\\n", same ? "same" : "other", a); }\n'
                    'int main(void)\n{\n')
            for x in ('A', 'B', 'LONGER_1'):
                f.write(f'#ifdef {x}\n  puts("def {x} " S({x}));\n#else\n  puts("undef {x}");\n#endif\n')
            dl = up + ('_HARDCODED' if 'minimal' in fmt else '') + '_DEFAULT_LIB'
            wide = dl + 'W' if not lib.startswith('nq:') else 'L"" ' + dl + 'W'
            f.write(f'#ifdef {dl}A\n  lib({dl}A, {wide});\n#else\n  puts("nolib");\n#endif\n  return 0; }}\n')
        r = c.run(['g++' if cxx else 'gcc', '-w', '-O0', '-o', d + '/m', m, '-ldl'])
        if r.returncode:
            return {'why': 'does not compile: ' + r.stderr.decode()[:300], 'args': args, 'line': line}
        o = c.run([d + '/m']).stdout.decode('latin-1').split('\n')
        shutil.rmtree(d)
        e = {'lib': lib, 'D': D, 'pre': pre, 'defs': [], 'got': '', 'has': False, 'same': False, 'args': args, 'line': line}
        for l in o:
            if l.startswith('def '):
                e['defs'].append({'n': l.split(' ')[1], 'v': ' '.join(l.split(' ')[2:])})
            if l.startswith('lib '):
                e.update(has=True, same=l.split(' ')[1] == 'same', got=' '.join(l.split(' ')[2:]))
        return e
    res = c.pmap(one, list(enumerate(jobs)), c.JOBS)
    ok = []
    for e, j in zip(res, jobs):
        if 'why' in e:
            ck.violation('settings ' + str(j), f'compiled settings: {e["why"]}: {j}', e)
        else:
            ok.append(e)
    bad, n = F.judge(ok, 'SettingsTrace')
    for k, why in bad[:10]:
        ck.violation(f'{why} {ok[k]["lib"]} {ok[k]["D"]}', f'compiled settings: {why}: {ok[k]["args"]} {ok[k]["line"]}', ok[k])
    ck.cov['compiled settings'] = n


def check(ck):
    rng = ck.rng
    cfg = 'SPECIFICATION Spec\nCONSTANTS Args_ = %d Toks_ = %d\nINVARIANTS SameSpelling AnyOrder CanonicalForm LineIsOption Ignored Report\n'
    rn = Runner(ck)
    runs = []
    parts = ([(1, 1), (0, 2)] if ck.prop == 'C20' else [(1, 0), (0, 2)]) if not c.THOROUGH else [(1, 2), (2, 0)]
    for a, t in parts:
        rc, out = c.tlc('OptionsMC', cfg % (a, t), workers=8, timeout=880)
        if rc:
            raise c.Broken('OptionsMC: ' + out[-2500:])
        rs = re.findall(r'"RUN (.*)"', out)
        ck.cov[f'TLC OptionsMC, {a} arguments and {t} %option words'] = f'{c.tlc_numbers(out)[1]} states, invariants hold'
        runs += rs
    runs = sorted(set(runs))
    ck.cov['command lines of the model'] = len(runs)
    first = [r for r in runs if '"t":[]' in r.replace('\\"', '"').replace(' ', '')]
    lim = 120000 if c.THOROUGH else 5000
    if len(runs) > lim:
        runs = first + rng.sample(runs, lim - len(first)) if len(first) < lim else rng.sample(runs, lim)
    cases = []
    for r in runs:
        x = json.loads(json.loads('"' + r + '"'))
        a, ls = x['a'], [x['t']] if x['t'] else []
        # what the model says is meant with the marked templates in place; the real ones now and then
        ds = rng.choice(DECLS) if rng.random() < .4 else DECLS[0]
        if rng.random() < .97:
            a = ['-templates-path=mk'] + a
        st = rng.getstate()
        t = text(ls, ds, rng)
        cases.append((a, ls, ds, t, text([], ds, rng)))
    n, k, ok = judge(ck, rn, cases, 'command line of the model')
    ck.cov['command lines of the model run'] = f'{n}, of which {ok} succeeded; compared with {k} canonical ones'
    # longer ones
    cases = []
    allopts = ['format', 'param', 'prefix', 'include', 'library', 'out', 'D', 'D', 'include', 'separate', 'separate', 'line', 'no-date', 'no-pragma-once', 'force', 'ignore-options', 'P', 'S', 'ast-all-symbols']
    for _ in range(60000 if c.THOROUGH else 3500):
        ds = rng.choice(DECLS)
        argv = []
        for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 8, 12])):
            o = rng.choice(allopts + (['template', 'print-symbols'] if rng.random() < .15 else []))
            if o in ('P', 'S') and rng.random() < .5:
                continue
            argv.append(spell(o, None if o in ('separate', 'line', 'no-date', 'no-pragma-once', 'force', 'ignore-options', 'ast-all-symbols', 'print-symbols') else value(o, rng), rng))
        if rng.random() < .93:
            argv.append(spell('templates-path', value('templates-path', rng), rng))
        argv.insert(rng.randint(0, len(argv)), [rng.choice(['in.h', 'in.h', 'in.h', '-'])])
        if rng.random() < .06:
            argv.insert(rng.randint(0, len(argv)), [rng.choice(['-', '--', 'extra', '', '-q', '-no', '--out=', '-D', '-version', '--format'])])
        argv = [x for y in argv for x in y]
        ls = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            l = []
            for _ in range(rng.randint(0, 4)):
                o = rng.choice(['line', 'no-date', 'no-pragma-once', 'D', 'format', 'include', 'library', 'param', 'prefix'])
                l.append(o if o in ('line', 'no-date', 'no-pragma-once') else re.sub(r'\s', '', o + '=' + value(o, rng)))
            if rng.random() < .04:
                l.insert(rng.randint(0, len(l)), rng.choice(['force', 'x', 'D', 'format', '-line', 'line,', 'param=', 'LINE']))
            ls.append(l)
        cases.append((argv, ls, ds, text(ls, ds, rng), text([], ds, rng)))
    n, k, ok = judge(ck, rn, cases, 'random command line')
    ck.cov['random command lines'] = f'{n}, of which {ok} succeeded; compared with {k} canonical ones'
    if ck.prop == 'C23':
        compiled(ck, rng)
    ck.assumptions += ['values that are neither documented nor plainly malformed (-D without a name, api: without a number, L"..." names) are not judged']


if __name__ == '__main__':
    c.main(check, sys.argv[1] if len(sys.argv) > 1 else 'C20', 'model_checking')
