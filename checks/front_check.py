#!/usr/bin/env python3
"""C11, C12, C13, C15: text input of the real tool against spec/Front.tla (judged by spec/FrontTrace.tla)"""
import collections, itertools, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import front as F
from front import Case
from declgen import *

PROP = sys.argv[1]


# ------------------------------------------------------------------ C11, C15
def decls_from_spec(ck, depth, parens, pairs):
    rc, out = c.tlc('DeclMC', f'SPECIFICATION Spec\nCONSTANTS Depth = {depth}\nParens = {parens}\nPairs = {pairs}\nINVARIANTS ReadAsMeant Report\n',
                    workers=8, heap='6g')
    if rc:
        raise c.Broken('DeclMC: ' + out[-1500:])
    ds = sorted(set(re.findall(r'"DECL",\s*"([^"]*)",\s*"(\w+)"', out)))
    ck.cov[f'TLC DeclMC depth {depth}'] = f'{c.tlc_numbers(out)[1]} states, {len(ds)} declarations, all read as meant'
    return [d.split() for d, _ in ds]


def c11(ck):
    tool = F.static_tool()
    ds = decls_from_spec(ck, 3 if c.THOROUGH else 2, 1, 'FALSE')
    ds = [d for d in ds]
    limit = 60000 if c.THOROUGH else 6000
    if len(ds) > limit:
        ck.cov['spec declarations sampled'] = f'{limit} of {len(ds)}'
        ds = ck.rng.sample(ds, limit)
    cases = []
    for k, d in enumerate(ds):
        name = ck.rng.choice(['foo', 'bar', 'x', 'int_'])
        cases.append(Case(render([name if t == 'NAME' else t for t in d], ck.rng, False, ck.rng.choice([0, .3, 1])) + ';',
                          mode=('skip', 'read', 'create')[k % 3 if not c.THOROUGH else ck.rng.randrange(3)]))
    res, ev, bad = F.judge_cases(tool, cases, ck, 'declaration from the specification')
    ck.cov['declarations from the specification'] = f'{len(cases)}, {sum(1 for r in res if r[0] == 0)} accepted, all judged by TLC'
    cases = []
    for _ in range(20000 if c.THOROUGH else 2500):
        rng = ck.rng
        mode = rng.choice(['skip', 'skip', 'read', 'create'])
        pm = {'skip': None, 'read': 'named', 'create': 'unnamed'}[mode] if rng.random() < .9 else None
        n = rng.choice([1, 1, 2, 3, 4, 8])
        full = rng.random() < .4
        cases.append(Case(''.join(render(declaration(rng, nm, pm), rng, full, rng.choice([0, .2, .6])) + end(rng, full) for nm in twice(rng, names(rng, n))), mode=mode))
    res, ev, bad = F.judge_cases(tool, cases, ck, 'random declarations')
    ck.cov['inputs with random declarations'] = f'{len(cases)}, {sum(1 for r in res if r[0] == 0)} accepted, {sum(len(e["fn"]) + len(e["ob"]) for e in ev)} symbols compared'
    # many declarations: order and completeness
    cases = []
    for n in ([50, 150, 300] if c.THOROUGH else [30, 100]):
        cases.append(Case('\n'.join(' '.join(declaration(ck.rng, f's{ck.rng.randrange(10)}_{k}', 'mixed')) + ';' for k in range(n)), mode='skip'))
    F.judge_cases(tool, cases, ck, 'long input')
    ck.cov['long inputs'] = f'{len(cases)}'


def twice(rng, ns):
    """now and then one name is declared again, as something else perhaps"""
    if rng.random() < .06:
        ns = list(ns)
        ns.insert(rng.randrange(len(ns) + 1), rng.choice(ns))
    return ns


def c15(ck):
    tool = F.static_tool()
    cases = []
    ds = decls_from_spec(ck, 1, 0, 'TRUE')
    ds = [d for d in ds if d[:2] == ['int', 'NAME'] and d[2:3] == ['(']]
    if not c.THOROUGH and len(ds) > 2500:
        ds = ck.rng.sample(ds, 2500)
    for d in ds:
        for m in ('skip', 'read', 'create'):
            cases.append(Case(' '.join('foo' if t == 'NAME' else t for t in d) + ';', mode=m))
    res, ev, bad = F.judge_cases(tool, cases, ck, 'parameter list from the specification')
    ck.cov['parameter lists from the specification, 3 modes'] = f'{len(cases)} runs, {sum(1 for r in res if r[0] == 0)} accepted'
    cases = []
    for _ in range(20000 if c.THOROUGH else 3000):
        rng = ck.rng
        mode = rng.choice(['skip', 'read', 'read', 'create', 'create'])
        pm = {'skip': 'mixed', 'read': 'named', 'create': 'unnamed'}[mode] if rng.random() < .85 else 'mixed'
        ns = names(rng, rng.choice([1, 1, 1, 2, 5]))
        cases.append(Case(''.join(render(declaration(rng, nm, pm, rng.choice(['f', 'f', 'fp', 'fpp', 'fo'])), rng, False, .2) + ';\n' for nm in ns), mode=mode))
    odd = ['int f(...);', 'int f(int,);', 'int f(,int);', 'int f(int a,,int b);', 'int f(void, int);', 'int f(int, void);', 'int f(*a);', 'int f(int *);',
           'int f(int a, int *);', 'int f(int, int b);', 'int f(unsigned int);', 'int f(const foo_t);', 'int f(foo_t const);', 'int f(struct s);',
           'int f(const struct s);', 'int f(int a, ...);', 'int f(int, ...);', 'int f(void (*)(void));', 'int f(void (*cb)(void));', 'int f(int [3]);',
           'int f(int a[3]);', 'int f(int a[], char *b[2][3]);', 'int f((void));', 'int f(void *);', 'int f(void *p);', 'int f(int (a));', 'int f(int *(a));',
           'int f(int ((a)));', 'int f(int (*a)[3]);', 'int f(int (*)[3]);', 'int f(long);', 'int f(long long);', 'int f(foo_t);', 'int f(register int a);',
           'int f(register int);', 'int f(int const);', 'int f(int const a);', 'void f(int a); int g(char);', 'void f(int); int g(char b);']
    cases += [Case(t, mode=m) for t in odd for m in ('skip', 'read', 'create')]
    res, ev, bad = F.judge_cases(tool, cases, ck, 'random parameter lists')
    ck.cov['inputs with random parameter lists'] = f'{len(cases)}, {sum(1 for r in res if r[0] == 0)} accepted'


# ----------------------------------------------------------------------- C12
ATOMS = F.ATOMS
PROBES = [b'', b' /*\nint p6(void);', b' " \'\nint p7(void);', b'"/*\nint p8(void);//"\n', b'/ int p9(void);\n', b'\nint p1(void);', b' int p2(void);\n', b';int p3(void);', b'*/int p4(void);', b'};\n\nint p5(void);//x']
BLOCKS = ['typedef struct { int a; char b[3]; } foo_t;', 'struct S { struct { int x; } y; };', 'enum E { A = 1, B = \'}\' };'.replace("'}'", '2'),
          'typedef int zz;', 'typedef void (*zz)(int);', 'struct S;', 'union U { int a; };\n', 'enum { A };', 'typedef struct S { "}" \'{\' ; } zz;',
          'struct S { int a = 3; /* } */ int zz(void); };', 'typedef enum { A // }\n , B } zz, *zzp;', 'struct zz { int a; } zz[] = { { 1 }, { 2 } };',
          'typedef struct {\n#if 1 }\n int a;\n} zz;', 'typedef struct { int a; } __attribute__((packed)) zz;', 'union { @ $ ` ? } ;', 'struct zz *zz;',
          'typedef int zz[sizeof(struct zz { int a; })];']


def deep_block(rng):
    """many braces, open and closed in any order that adds up"""
    s, d = 'typedef struct {', 1
    for _ in range(rng.choice([10, 60, 140, 280])):
        s += '{ '
        d += 1
        if d > 2 and rng.random() < .05:
            s += 'int zz ; } '
            d -= 1
    return s + 'int zz(void); ' + rng.choice(['}', '} '] ) * d + ' zz;'


def c12(ck):
    tool = F.static_tool()
    n = 9 if c.THOROUGH else 5
    rc, out = c.tlc('LexMC', f'SPECIFICATION Spec\nCONSTANT MaxAtoms = {n}\nVIEW View\nINVARIANTS IdleIsIdle FreshDeclFound IgnoredMakesNoDifference '
                    'DirectiveMakesNoDifference Report\n', workers=1)
    if rc:
        raise c.Broken('LexMC: ' + out[-1500:])
    acc = sorted(set(bytes(int(x) for x in re.findall(r'\d+', m)) for m in re.findall(r'"ACCESS",\s*<<([^>]*)>>', out)))
    ck.cov['TLC LexMC'] = f'{c.tlc_numbers(out)[1]} states of the lexical automaton (texts of up to {n} atoms), ignored text makes no difference'
    alltests = len(acc) * len(ATOMS) * len(PROBES)
    if c.THOROUGH and alltests > 300000:
        tests = [(ck.rng.choice(acc), ck.rng.choice(ATOMS), ck.rng.choice(PROBES)) for _ in range(300000)]
    elif not c.THOROUGH:
        tests = [(a, m, p) for a in acc for m in ATOMS for p in ck.rng.sample(PROBES, 2)]
    else:
        tests = itertools.product(acc, ATOMS, PROBES)
    texts = sorted(set(a + m + p for a, m, p in tests))
    cases = [Case(t) for t in texts]
    res, ev, bad = F.judge_cases(tool, cases, ck, 'state of the lexical automaton')
    ck.cov['access sequence + atom + probe'] = f'{len(cases)} texts, {sum(1 for r in res if r[0] == 0)} accepted'
    cases = []
    for _ in range(20000 if c.THOROUGH else 2500):
        rng = ck.rng
        s = rng.choice(['', '', '\xef\xbb\xbf', '\n', '%option include=one.h\n', '\xef\xbb\xbf%option  no-date include=a.h \\\n include=b.h\n'])
        ns = names(rng, rng.choice([1, 2, 3, 5]))
        for nm in ns:
            k = rng.random()
            if k < .35:
                s += (rng.choice(BLOCKS) if rng.random() < .97 else deep_block(rng)) + rng.choice(['', '\n', gap(rng, False, True)])
            elif k < .5:
                s += '\n' + rng.choice(DIRECTIVES) + '\n'
            elif k < .55:
                s += '\n%option include=' + nm + '.h\n'
            s += render(declaration(rng, nm, None, rng.choice(['f', 'f', 'o', 'fp', 'a'])) if rng.random() > .01 else [nm], rng, True, rng.choice([0, .3, .8])) + end(rng, True)
        if rng.random() < .2:
            s = re.sub(r'(?<!\r)\n', '\r\n', s)
        if rng.random() < .1:
            s = s.rstrip('\n')
        cases.append(Case(s))
    res, ev, bad = F.judge_cases(tool, cases, ck, 'declarations with ignored text in between')
    ck.cov['declarations with ignored text in between'] = f'{len(cases)} texts, {sum(1 for r in res if r[0] == 0)} accepted'
    # random texts made of atoms
    cases = [Case(b''.join(ck.rng.choice(ATOMS + PROBES[1:] + [b'int q(void);\n', b'// x\n', b'/* y */']) for _ in range(ck.rng.randrange(3, 14))))
             for _ in range(60000 if c.THOROUGH else 6000)]
    res, ev, bad = F.judge_cases(tool, cases, ck, 'random text')
    ck.cov['random texts'] = f'{len(cases)} texts, {sum(1 for r in res if r[0] == 0)} accepted'


# ----------------------------------------------------------------------- C13
def c13(ck):
    tool = F.static_tool()
    rc, out = c.tlc('SelMC', 'SPECIFICATION Spec\nCONSTANT MaxDecl = 3\nINVARIANTS OnlyDeclared Union Monotone AllListed Report\n', workers=8)
    if rc:
        raise c.Broken('SelMC: ' + out[-1500:])
    confs = sorted(set(re.findall(r'"SEL",\s*"([^"]*)",\s*"([^"]*)",\s*"([^"]*)"', out)))
    ck.cov['TLC SelMC'] = f'{c.tlc_numbers(out)[1]} states, {len(confs)} configurations'
    limit = 60000 if c.THOROUGH else 7000
    if len(confs) > limit:
        confs = ck.rng.sample(confs, limit)
    cases = []
    for d, p, s in confs:
        t = ''.join((f'int {n}(int x);\n' if k % 3 != 1 else f'char *{n};\n') for k, n in enumerate(d.split()))
        cases.append(Case(t, p.split(), s.split()))
    res, ev, bad = F.judge_cases(tool, cases, ck, 'selection from the specification')
    ck.cov['configurations run'] = f'{len(cases)}, {sum(1 for r in res if r[0] == 0)} selected something'
    cases = []
    for _ in range(20000 if c.THOROUGH else 2500):
        rng = ck.rng
        pool = [''.join(rng.choice('aAb_1') for _ in range(rng.choice([1, 1, 2, 3, 4]))) for _ in range(rng.choice([1, 3, 6, 12]))]
        pool = [x if not x[0].isdigit() else '_' + x for x in pool]
        d = list(pool) if rng.random() < .1 else list(dict.fromkeys(pool))
        ps = [rng.choice(pool)[:rng.choice([1, 2, 3])] for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        sy = [rng.choice(pool + (['zz', 'a', 'ab'] if rng.random() < .3 else [])) for _ in range(rng.choice([0, 1, 1, 2, 5]))]
        t = ''.join(' '.join(declaration(rng, n, 'named')) + ';\n' for n in (twice(rng, d) if rng.random() < .3 else d))
        cases.append(Case(t, ps, sy, rng.choice(['skip', 'read'])))
    res, ev, bad = F.judge_cases(tool, cases, ck, 'random selection')
    many = []
    for _ in range(600 if c.THOROUGH else 80):
        rng = ck.rng
        pool = list(dict.fromkeys(rng.choice(['api_', 'api_x', 'Lib', '_']) + ''.join(rng.choice('abAB_01') for _ in range(rng.choice([1, 2, 3, 40]))) for _ in range(rng.choice([20, 40, 80]))))
        d = list(pool)
        for _ in range(rng.choice([0, 0, 1, 2])):
            d.insert(rng.choice([0, len(d), rng.randrange(len(d))]), rng.choice(d))
        ps = [rng.choice(pool)[:rng.choice([2, 4, 6, 30])] for _ in range(rng.choice([0, 0, 1, 3, 20]))]
        sy = rng.sample(pool, rng.choice([0, 1, 5, 18])) + [rng.choice(['zz', pool[0] + '0', pool[-1][:-1], 'api_']) for _ in range(rng.choice([0, 0, 1, 12]))]
        rng.shuffle(sy)
        many.append(Case(''.join(rng.choice([f'int {n}(int x);\n', f'void {n}(void);\n', f'extern int {n};\n', f'int {n}[3];']) for n in d), ps, sy, rng.choice(['skip', 'read'])))
    res2, ev2, _ = F.judge_cases(tool, many, ck, 'selection from many')
    res, ev = list(res) + list(res2), list(ev) + list(ev2)
    ck.cov['random selections'] = f'{len(cases) + len(many)}, {sum(1 for r in res if r[0] == 0)} selected something, {sum(1 for e in ev if e["miss"])} with missing symbols'


def check(ck):
    {'C11': c11, 'C12': c12, 'C13': c13, 'C15': c15}[PROP](ck)
    ck.assumptions.append('observation through a template read with -templates-path; text the specification leaves open (marked free/may) is not judged')


c.main(check, PROP, 'model_checking')
