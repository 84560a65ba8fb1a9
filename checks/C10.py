#!/usr/bin/env python3
"""C10: -prefix renames the API (spec/Prefix.tla), headers coexist (spec/CoexistTrace.tla)"""
import json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import loader as L
import coexist as X
import wrap as W

TOK = re.compile(r'''/\*.*?\*/|//(?:\\\n|[^\n])*|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|[A-Za-z_]\w*|\d[\w.]*|\s+|.''', re.S)


def tokens(text):
    out = []
    for t in TOK.findall(text):
        if t.startswith(('/*', '//')) or t.isspace():
            continue
        if t[0] in '"\'':
            out += re.findall(r'[A-Za-z_]\w*|[^A-Za-z_]+', t)
        else:
            out.append(t)
    return out


USER = [
    # declarations that look like the default prefix
    ('int gdo_user(int gdo_arg, GDO_TYPE *p);\nGDO_TYPE GDO_object;\nvoid plain(void);\ngdo_cb_t xgdo(gdo_cb_t *gdo_, int a[3]);\n',
     ['gdo_user', 'gdo_arg', 'GDO_TYPE', 'GDO_object', 'plain', 'gdo_cb_t', 'xgdo', 'gdo_', 'a', 'p']),
    ('int (*fp)(int n);\nint arr[3];\nchar *(*gdo_hook)(void);\nvoid f(void (*cb)(int), int n);\n', ['fp', 'arr', 'gdo_hook', 'f', 'cb', 'n']),
    ('int gdl_aa(int x);\nchar **gdl_list;\n', ['gdl_aa', 'gdl_list', 'x']),
    ('long f(int a, ...);\n', ['f', 'a']),
]
FORMATS = ['C', 'C++', 'minimal', 'minimal-C++', 'plugin']


def prefixes(rng, n):
    out = ['Xy-9', 'a', 'GDO', 'gdox', 'my_lib', 'A.b+c', '_x', 'UPPER', 'gd', 'x__', 'ügly', 'gdo2', 'Zgdo']
    while len(out) < n:
        out.append(rng.choice('abcXYZ_') + ''.join(rng.choice('abcdxyzABCXYZ0189_-.:+ ') for _ in range(rng.randint(0, 12))).rstrip())
    return out[:n]


def rename_part(chk, tool):
    rng = chk.rng
    big = c.THOROUGH
    jobs = []
    for pfx in prefixes(rng, 60 if big else 24):
        for fmt in FORMATS:
            for opts in ([], ['-separate'], ['-line'], ['-param=skip'], ['-no-pragma-once'], ['-no-pragma-once', '-separate'], ['-print-symbols'], ['-library=nq:GDO_x', '-include=gdo_user.h', '-D=GDO_foo=gdo_bar']):
                if not big and rng.random() < .65:
                    continue
                jobs.append((pfx, fmt, opts, rng.choice(USER)))

    def one(j):
        k, (pfx, fmt, opts, (text, user)) = j
        w = c.sub(f'ren-{k}')
        out = []
        opts = [o for o in opts if not (o.startswith('-param') and 'f(int a' in text)]
        for p in ('gdo', pfx):
            d = os.path.join(w, 'd' if p == 'gdo' and not out else 'p')
            os.makedirs(d, exist_ok=True)
            r = c.gen(tool, ['-format=' + fmt, '-no-date', '-force', '-prefix=' + p, '-out=' + os.path.join(d, 'out.h'), '-'] + opts, cwd=w, inp=text)
            if r.returncode:
                return j, None, r.stderr.decode('utf8', 'replace')
            if opts == ['-print-symbols']:
                with open(os.path.join(d, 'stdout'), 'wb') as f:
                    f.write(r.stdout)
            out.append({f: open(os.path.join(d, f), encoding='utf8', errors='surrogateescape').read() for f in sorted(os.listdir(d))})
        ev = []
        extra = ['GDO_x', 'GDO_foo', 'gdo_bar', 'gdo_user'] if any('GDO_x' in o for o in opts) else []
        same = sorted(out[0]) == sorted(out[1])
        for f in out[0]:
            a, b = tokens(out[0][f]), tokens(out[1].get(f, ''))
            ok = same and len(a) == len(b)
            pairs = set()
            if ok:
                for x, y in zip(a, b):
                    if re.match(r'[A-Za-z_]', x):
                        pairs.add((x, y))
                    elif x != y:
                        ok = False
                        pairs.add((x, y))
            # only names that could be affected need to be looked at one by one
            plain = {p for p in pairs if p[0] == p[1] and 'gdo' not in p[0].lower()}
            bad = [] if ok else sorted(p for p in pairs if not re.match(r'[A-Za-z_]', p[0]))[:3]
            ev.append(json.dumps({'pfx': pfx if pfx.isascii() else re.sub('[^\\x00-\\x7f]', '__', pfx), 'user': user + extra, 'same': ok, 'file': f, 'args': [fmt] + opts,
                                  'pairs': [list(p) for p in sorted(pairs - plain)], 'note': bad}))
        return j, ev, ''
    res = c.pmap(one, list(enumerate(jobs)))
    events, owner = [], []
    for j, ev, err in res:
        if ev is None:
            chk.violation('rename:error', f'-prefix={j[1][0]} -format={j[1][1]} {j[1][2]} failed: {err}', {'job': j})
            if len(chk.violations) > 3:
                return 0
            continue
        events += ev
        owner += [j] * len(ev)
    def judge(idx):
        """indices of the rejected files, at most one per part"""
        ok, at = L.validate([events[k] for k in idx], 'C10', 'rename', 'Prefix')
        return [] if ok else [idx[at]]
    parts = [range(k, min(k + 60, len(events))) for k in range(0, len(events), 60)]
    for at in [x for b in c.pmap(judge, [list(p) for p in parts], jobs=7) for x in b][:4]:
        e = json.loads(events[at])
        chk.violation('rename', f'-prefix={owner[at][1][0]} {e["args"]}: {e["file"]} is not the renamed default output; '
                      f'{e["note"]} {[p for p in e["pairs"] if "gdo" in p[1].lower()][:6]}', {'job': owner[at], 'event': events[at][:20000]})
    return len(jobs)


def coexist_part(chk, tool):
    rng = chk.rng
    big = c.THOROUGH
    syms = L.SYMS[2]
    gc, ic, s1, t1 = L.mc(False, 2, [0], 1 if big else 0)
    gx, ix, s2, t2 = L.mc(True, 2, [1], 1 if big else 0)
    confs = []
    for n in range(24 if big else 8):
        insts = []
        pf = rng.sample(['one', 'Two', 'th-ree', 'gdo', 'gdo2', 'x', 'X_y', 'gdo_z', 'four_4'], rng.choice([2, 2, 3]))
        pf = [p for k, p in enumerate(pf) if not any(re.sub('[^a-z0-9]', '_', q.lower()).startswith(re.sub('[^a-z0-9]', '_', p.lower()) + '_') or
                                                     re.sub('[^a-z0-9]', '_', p.lower()).startswith(re.sub('[^a-z0-9]', '_', q.lower()) + '_') for q in pf[:k])]
        if len(pf) < 2:
            pf = ['one', 'Two']
        same = n % 2 == 1
        for k, p in enumerate(pf):
            gen = rng.choice([[], ['-line'], ['-param=skip']])
            insts.append({'lang': rng.choice(['c', 'cxx']), 'pfx': p, 'gen': gen,
                          'cflags': [] if gen == ['-param=skip'] else rng.choice([[], ['-DGDO_WRAP_FUNCTIONS'], ['-DGDO_ENABLE_AUTOLOAD']]),
                          'separate': rng.random() < .4})
        confs.append((insts, same))
    exes = c.pmap(lambda k: X.build(tool, confs[k][0], syms, confs[k][1], k), range(len(confs)))
    items = []
    for k, ((insts, same), exe) in enumerate(zip(confs, exes)):
        runs = []
        for _ in range(60 if big else 14):
            ws = [L.walks(gx if i['lang'] == 'cxx' else gc, ix if i['lang'] == 'cxx' else ic, rng, 1, 50)[0] for i in insts]
            run = []
            while any(ws):
                j = rng.choice([x for x in range(len(ws)) if ws[x]])
                for _ in range(rng.randint(1, 3)):
                    if ws[j]:
                        run.append(f'{j} {ws[j].pop(0)}')
            runs.append(run)
        items.append((f'coexist-{k}', {'instances': insts, 'one translation unit': same}, exe, runs, len(insts)))
    return items, s1 + s2, t1 + t2


def mixed_part(chk, tool):
    """headers of all formats, each twice, in one translation unit"""
    w = c.sub('mixed')
    with open(os.path.join(w, 'in.h'), 'w') as f:
        f.write('int alpha(int a);\nextern int beta;\n')
    heads = {}
    for fmt in FORMATS:
        for k, p in enumerate(('p' + str(FORMATS.index(fmt)), 'Q-' + str(FORMATS.index(fmt)))):
            h = f'h{FORMATS.index(fmt)}_{k}.h'
            r = c.gen(tool, ['-format=' + fmt, '-no-date', '-force', '-prefix=' + p, '-out=' + h, 'in.h'], cwd=w)
            if r.returncode:
                chk.violation('mixed:gen', f'-prefix={p} -format={fmt} failed: {r.stderr.decode("utf8", "replace")}', {'prefix': p})
                return 0
            heads[fmt, k] = (h, re.sub('[^A-Z0-9]', '_', p.upper()))
    defs = [f'-D{u}_DISABLE_ALIASING' for _, u in heads.values()]
    jobs = []
    for n in range(80 if c.THOROUGH else 12):
        lang = ('gcc', 'g++', 'clang', 'clang++')[n % 4]
        order = list(heads) if '++' in lang else [k for k in heads if '++' not in k[0]]
        chk.rng.shuffle(order)
        jobs.append((n, lang, order, chk.rng.choice(['', 'STATIC', 'WRAP_FUNCTIONS'])))

    def one(j):
        n, lang, order, opt = j
        src = f't{n}.' + ('cpp' if '++' in lang else 'c')
        with open(os.path.join(w, src), 'w') as f:
            f.write('#include <stdio.h>\n' + ''.join(f'#include "{heads[k][0]}"\n' for k in order) + 'int main(void) { return 0; }\n')
        # (wrappers have the plain names of the functions: at most one header may define them)
        d = defs + [f'-D{heads[k][1]}_{opt}' for k in order if opt == 'STATIC' and '++' not in lang or opt == 'WRAP_FUNCTIONS' and k == order[0]]
        try:
            c.compile_c(f't{n}', [src], d + ['-I.', '-O0', '-ldl'], cc=lang, cwd=w)
        except c.BuildFailure as e:
            return f'{lang} {opt} {order}: {e}'
    for bad in [b for b in c.pmap(one, jobs) if b][:3]:
        chk.violation('mixed', 'headers with different prefixes do not compile together: ' + bad[:1500], {'error': bad})
    return len(jobs)


def check(chk):
    tool = c.build_tool()
    nmix = mixed_part(chk, tool)
    nren = rename_part(chk, tool)
    items, states, trans = coexist_part(chk, tool)
    ninst = {it[0]: it[4] for it in items}
    # an event per instance and command
    W.complete_orig = W.complete
    nrun = nev = 0
    for k in sorted(set(ninst.values())):
        W.complete = lambda run, lines, rc, k=k: rc == 0 and len(lines) == k * (len(run) + 1) + 1
        a, b = W.judge(chk, [it[:4] for it in items if it[4] == k], 'C10', 'CoexistTrace', chunk=6000)
        nrun += a
        nev += b
    chk.cov = {'states': states, 'transitions': trans, 'traces_validated_against_impl': nrun, 'events_validated': nev,
               'renamed_outputs': nren, 'mixed_programs': nmix, 'programs': len(items),
               'samples': [{'instances': items[0][1], 'commands': items[0][3][0][:8]}]}
    chk.assumptions = ['prefixes that make valid identifiers', 'scripted dynamic loader', 'prefixes where one is the other followed by an underscore are not combined']


c.main(check, 'C10', 'model_checking')
