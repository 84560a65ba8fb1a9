#!/usr/bin/env python3
"""C16, C17: what the real tool makes of templates against spec/Template.tla and spec/LineMap.tla (judged by TemplateTrace.tla)"""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import front as F
import templ as T
from manyrun import many

PROP = sys.argv[1] if len(sys.argv) > 1 else 'C16'
KEYS = ['return', 'type', 'func_symbol', 'func_symbol_pad', 'args', 'param_names', 'obj_type', 'obj_symbol', 'obj_symbol_pad', 'sym_type', 'symbol']
FN, OB, SY = KEYS[:6], KEYS[6:9], KEYS[9:]
PFX = ['gdo', 'gdo', 'foo', 'Xy-9', '_a', 'gdo_gdo', 'f', 'rather_long_prefix_of_an_api']


def atoms():
    """the lines of TemplateMC.tla"""
    s = open(os.path.join(c.SPEC, 'TemplateMC.tla')).read()
    s = s[s.index('Atoms == <<') + 11:s.index('>>\n\nSyms')]
    return [m.group(1).replace('\\r', '\r').replace('\\"', '"').replace('\\\\', '\\') for m in re.finditer(r'^\s*"((?:[^"\\]|\\.)*)"', s, re.M)]


def random_line(rng, marker=''):
    r = rng.random()
    if r < .1:
        return ''
    if r < .2 and not marker:
        return rng.choice(['%PARAM_SKIP_REMOVE_BEGIN%', '%PARAM_SKIP_USE_BEGIN%', '%PARAM_SKIP_END%', '%PARAM_SKIP_END%', ' %PARAM_SKIP_END%', '%PARAM_SKIP_XX%', '%PARAM_SKIP_USE_BEGIN%x'])
    cls = rng.choice([[], [], FN, FN, OB, SY, SY]) if rng.random() < .97 else KEYS
    s = marker
    for _ in range(rng.randrange(1, 7)):
        k = rng.random()
        if cls and k < .5:
            s += '%%' + rng.choice(cls) + '%%' + rng.choice(['', ' ', ' ', '  ', '(', ');', ', '])
        elif k < .6:
            s += rng.choice(['GDO_', 'gdo_', '_GDO_X', 'gdo', ' gdo::', 'xgdo_', 'GDO', '#GDO_', '/gdo/', 'gdo ', 'GDO_GDO_', '_gdo_gdo_ '])
        elif k < .7:
            s += rng.choice(['%', '100%', '@', ' @ ', '%%x', '%type%', '%% ', '\t', '\\', '"', '$1', '\x80\xff', '/*', '//', "'"])
        else:
            s += rng.choice([' foo', 'bar ', ' ', '{', '};', '(int)', '  ', 'return'])
    if s.startswith('#line'):
        s = 'x' + s
    r = rng.random()
    if r < .2:
        s = s.rstrip('@') + rng.choice(['@', '@', '@\r'])
    elif r < .25:
        s = s.rstrip('@') + '\r'
    elif s.endswith('@'):
        s += '.'
    return s


def random_template(rng, n, marker=None):
    ls = [random_line(rng, f'{marker}{k} ' if marker and rng.random() < .7 else '') for k in range(n)]
    if ls and (ls[-1].endswith('@') or ls[-1].endswith('@\r')):
        ls.append('end')
    return ls


def to_bytes(ls, term=True):
    return ('\n'.join(ls) + ('\n' if term and ls else '')).encode('latin-1')


def custom(ck, tool, jobs, what):
    """jobs: (lines, terminated, symbols, prefix, from stdin)"""
    w = c.sub('custom')
    runs, files = [], []
    for k, (ls, term, sy, pfx, stdin) in enumerate(jobs):
        d = os.path.join(w, str(k // 1000))
        os.makedirs(d, exist_ok=True)
        tf, inf = os.path.join(d, f't{k}' + ('.x' if k % 3 else ' "\\q.h')), os.path.join(d, f'i{k}')
        with open(tf, 'wb') as f:
            f.write(to_bytes(ls, term))
        with open(inf, 'w') as f:
            f.write(sy.text())
        a = ['-param=' + sy.mode] + (['-prefix=' + pfx] if pfx != 'gdo' else [])
        if stdin:
            data, base = to_bytes(ls, term), a + ['-template=-', inf]
        else:
            data, base = sy.text().encode(), a + ['-template=' + tf, '-']
        runs += [(base, data), (['-line'] + base, data)]
        files.append(['<STDIN>'] if stdin else [tf])
    res = many(tool, runs)
    shutil.rmtree(w)
    ev, idx = [], []
    for k, (ls, term, sy, pfx, stdin) in enumerate(jobs):
        r0, r1 = res[2 * k], res[2 * k + 1]
        if any(F.crash(r[0]) for r in (r0, r1)):
            ck.violation('crash ' + repr(ls)[:80], f'{what}: the tool ended with status {r0[0]}, {r1[0]}', {'template': ls, 'symbols': sy.text(), 'args': runs[2 * k][0]})
            continue
        idx.append(k)
        ev.append({'kind': 'custom', 'which': PROP, 'tl': ls, 'pfx': pfx, 'mode': sy.mode, 'syms': sy.json(pfx), 'file': files[k],
                   'st': r0[0], 'out': T.split(r0[1]), 'stl': r1[0], 'outl': T.split(r1[1])})
    report(ck, ev, what, lambda n: {'args': runs[2 * idx[n]][0], 'stderr': res[2 * idx[n]][2][-300:].decode('latin-1')})
    return ev


def report(ck, ev, what, more):
    bad, n = F.judge(ev, 'TemplateTrace')
    for k, why in sorted(bad, key=lambda b: len(str(ev[b[0]])))[:12]:
        e = ev[k]
        text = repr(e['tl'])[:300] if e['kind'] == 'custom' else f'{e["what"]}'
        ck.violation(why + ' ' + text[:80], f'{what}: {why}: {text}, prefix {e["pfx"]}, -param={e["mode"]}', dict(more(k), reason=why, event=e))


def generated(ck, tool, jobs, what):
    """jobs: (format, separate, templates dir or None, contents, symbols, prefix, more options, to stdout)"""
    w = c.sub('generated')
    runs, meta = [], []
    for k, (fmt, sep, tdir, cont, sy, pfx, opts, stdout) in enumerate(jobs):
        inf = os.path.join(w, f'i{k}')
        with open(inf, 'w') as f:
            f.write(sy.text())
        for j, l in enumerate(([], ['-line'])):
            o = os.path.join(w, f'o{k}{"ab"[j]}')
            os.mkdir(o)
            a = ['-no-date', '-format=' + fmt, '-param=' + sy.mode] + (['-prefix=' + pfx] if pfx != 'gdo' else []) + (['-separate'] if sep else [])
            a += (['-templates-path=' + tdir] if tdir else []) + opts + l + ([] if stdout else [f'-out={o}/my "out.x']) + [inf]
            runs.append((a, b''))
            meta.append(o)
    res = many(tool, runs)
    ev, idx = [], []
    for k, (fmt, sep, tdir, cont, sy, pfx, opts, stdout) in enumerate(jobs):
        hdr, both, body = T.HEADERS[fmt]
        cxx = 'C++' in fmt
        two = sep and not stdout and body
        outs = []
        for j in (0, 1):
            st, so, se = res[2 * k + j]
            if F.crash(st):
                ck.violation(f'crash {fmt}', f'{what}: the tool ended with status {st}', {'args': runs[2 * k + j][0], 'symbols': sy.text()})
            if stdout:
                fs = [so]
                names = [T_pfx(pfx) + ('.hpp' if cxx else '.h')]
            elif two:
                names = ['my "out.' + ('hpp' if cxx else 'h'), 'my "out.' + ('cpp' if cxx else 'c')]
                fs = [rd(os.path.join(meta[2 * k + j], n)) for n in names]
            else:
                names = ['my "out.x']
                fs = [rd(os.path.join(meta[2 * k + j], names[0]))]
            outs.append((st, fs))
        if F.crash(outs[0][0]) or F.crash(outs[1][0]):
            continue
        name = (lambda n: ['<built-in>/' + n]) if tdir is None else (lambda n: [n, os.path.join(tdir, n), tdir + n])
        failed = outs[0][0] != 0 or outs[1][0] != 0
        for n in range(1 if failed else len(outs[0][1])):
            parts = (both + body if failed else both if n == 0 else body) if two else hdr
            part = lambda x: {'file': name(x), 'tl': cont[x]}
            ev.append({'kind': 'file', 'which': PROP, 'what': f'{fmt} {"body" if n else "header"}{"" if tdir else " (built-in templates)"}', 'self': names[n:n + 1] + ([pfx + os.path.splitext(names[0])[1]] if stdout else []),
                       'parts': [part(x) for x in parts], 'lic': part('license.h'), 'mac': part('filename_macros.h') if n == 0 else {'file': [], 'tl': []},
                       'pfx': pfx, 'mode': sy.mode, 'syms': sy.json(pfx), 'st': outs[0][0], 'stl': outs[1][0],
                       'out': T.split(outs[0][1][n]), 'outl': T.split(outs[1][1][n])})
            idx.append(k)
    report(ck, ev, what, lambda n: {'args': runs[2 * idx[n]][0], 'symbols': jobs[idx[n]][4].text()})
    shutil.rmtree(w)
    return ev


def T_pfx(p):
    return p


def rd(p):
    try:
        return open(p, 'rb').read()
    except OSError:
        return b''


def check(ck):
    tool = F.static_tool()
    rng = ck.rng
    rc, out = c.tlc('TemplateMC', 'SPECIFICATION Spec\nCONSTANT MaxLines = %d\nINVARIANTS SameAsWhole Provenance InOrder EachOnce Sections Report\n' % (4 if c.THOROUGH else 3),
                    workers=8, timeout=600)
    if rc:
        raise c.Broken('TemplateMC: ' + out[-1500:])
    tpls = sorted(set(re.findall(r'<<"TPL", "(\w+)", "<<([\d, ]*)>>">>', out)))
    ck.cov['TLC TemplateMC'] = f'{c.tlc_numbers(out)[1]} states, invariants hold; {len(tpls)} (mode, template) pairs'
    at = atoms()
    # symbols: every shape of small symbol table
    pools = {}
    for mode in ('skip', 'read', 'create'):
        pools[mode] = [x for x in T.resolve(tool, [T.random_symbols(rng, mode, nf, no) for nf in (0, 1, 2, 3) for no in (0, 1, 2) for _ in range(3)]) if x]
        if len(pools[mode]) < 20:
            ck.violation('symbols', 'the symbols used to fill templates are not those declared (see C11)', {'mode': mode})
            return
    if len(tpls) > (40000 if c.THOROUGH else 5000):
        short = [t for t in tpls if t[1].count(',') < 2]
        tpls = short + rng.sample(tpls, (40000 if c.THOROUGH else 5000) - len(short))
    jobs = []
    for mode, t in tpls:
        m = mode if mode == 'skip' else rng.choice(['read', 'create'])
        jobs.append(([at[int(x) - 1] for x in t.split(', ')], rng.random() < .8, rng.choice(pools[m]), rng.choice(PFX), rng.random() < .05))
    jobs = [(ls, term or ls[-1] == '', sy, p, i) for ls, term, sy, p, i in jobs]
    custom(ck, tool, jobs, 'template of the model')
    ck.cov['templates of the model run'] = len(jobs)
    # random templates, larger symbol tables
    for mode in pools:
        pools[mode] += [x for x in T.resolve(tool, [T.random_symbols(rng, mode, rng.choice([0, 1, 10, 40]), rng.choice([0, 1, 10, 40])) for _ in range(8)]) if x]
    jobs = []
    for k in range(20000 if c.THOROUGH else 2500):
        ls = random_template(rng, rng.choice([1, 2, 3, 5, 8, 12, 20]))
        m = rng.choice(['skip', 'read', 'read', 'create'])
        jobs.append((ls, rng.random() < .8 or ls[-1] == '', rng.choice(pools[m]), rng.choice(PFX), rng.random() < .05))
    ev = custom(ck, tool, jobs, 'random template')
    ck.cov['random templates'] = f'{len(jobs)}, {sum(1 for e in ev if e["st"] == 0)} accepted, {sum(len(e["out"]) for e in ev)} lines of output'
    # whole outputs: external templates
    jobs = []
    w = c.sub('tpath')
    for k in range(3000 if c.THOROUGH else 350):
        d = os.path.join(w, f'd{k}')
        os.mkdir(d)
        cont = {}
        for n in T.ALL:
            lic = n in ('license.h', 'filename_macros.h')
            ls = random_template(rng, rng.choice([0, 1, 2, 4, 7]), n[0])
            ls = [l for l in ls if lic is False or '%%' not in l]
            if ls and (ls[-1].endswith('@') or ls[-1].endswith('@\r')):
                ls.append('end')
            if ls and ls[0].startswith('#line'):
                ls[0] = 'x'
            if any('SKIP' in l for l in ls):
                ls.append('%PARAM_SKIP_END%')
            cont[n] = ls
            with open(os.path.join(d, n), 'wb') as f:
                f.write(to_bytes(ls, rng.random() < .8 or bool(ls and ls[-1] == '')))
        m = rng.choice(['skip', 'read', 'create'])
        jobs.append((rng.choice(list(T.HEADERS)), rng.random() < .5, d + rng.choice(['', '/']), cont, rng.choice(pools[m]), rng.choice(PFX), options(rng), rng.random() < .3))
    ev = generated(ck, tool, jobs, 'external templates')
    ck.cov['outputs from external templates'] = f'{len(ev)}, {sum(1 for e in ev if e["st"] == 0)} accepted'
    # built-in templates
    cont = {n: T.builtin(n) for n in T.ALL}
    jobs = []
    for fmt in T.HEADERS:
        for k in range(12 if c.THOROUGH else 3):
            m = ['skip', 'read', 'create'][k % 3]
            jobs.append((fmt, k % 2 == 1, None, cont, rng.choice(pools[m]), rng.choice(PFX), options(rng), rng.random() < .3))
    ev = generated(ck, tool, jobs, 'built-in templates')
    ck.cov['outputs from built-in templates'] = f'{len(ev)}, {sum(len(e["out"]) for e in ev)} lines'
    ck.assumptions.append('a continuation mark on the last line, and placeholders sharing percent signs, are not defined')


def options(rng):
    o = []
    if rng.random() < .4:
        o.append('-library=' + rng.choice(['foo', 'ext:foo', 'api:1:foo', 'nq:X']))
    for _ in range(rng.choice([0, 0, 1, 3])):
        o.append(rng.choice(['-DFOO', '-DBAR=1', '-include=a.h', '-include=<b.h>', '-no-pragma-once']))
    return o


c.main(check, PROP, 'model_checking')
