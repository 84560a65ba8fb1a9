#!/usr/bin/env python3
"""C14: Clang AST dumps read by the real tool against spec/Ast.tla (judged by spec/AstTrace.tla)"""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import front as F
import astdump as A
from declgen import *

PRELUDE = '''typedef int foo_t; typedef unsigned long size_t; typedef unsigned char u8; typedef int integer; typedef struct structure structure;
typedef int externs; typedef void voids; typedef struct _x { int a; } _x; struct S { int m; }; enum E { EA, EB }; union U { int a; float b; };
struct foo; enum { N = 4 }; typedef int fn_t(int, char *); typedef void vfn_t(void); typedef int (*fp_t)(const char *, ...); typedef int arr_t[3];
typedef struct { int a; } unn_t; typedef int a1; typedef char a2; typedef long a3; typedef int a1_t;
'''


def header(rng, n):
    """declarations Clang accepts (most of them)"""
    s = PRELUDE
    used = []
    for k in range(n):
        nm = f'{rng.choice(["foo", "bar", "x", "get_", "A", "FunctionDecl", "VarDecl", "ParmVarDecl"])}{k}'
        used.append(nm)
        r = rng.random()
        if r < .55:
            t = declaration(rng, nm, rng.choice(['named', 'unnamed', 'mixed']), rng.choice(['f', 'f', 'f', 'fp', 'fpp', 'o', 'a', 'fo']))
            t = [x for x in t if x not in ('restrict', 'register')]
            s += ('' if 'extern' in t else 'extern ') + ' '.join(t) + rng.choice(['', ' __attribute__((visibility("default")))', '']) + ';\n'
        elif r < .6:
            s += f'static inline int {nm}(int a, char *b) {{ int q = a; struct L {{ int z; }} l; extern int inner_{k}(int, int); return q + inner_{k}(1, 2); }}\n'
        elif r < .64:
            s += f'extern fn_t {nm};\n'
        elif r < .67:
            s += f'fp_t {nm}; arr_t {nm}_arr; unn_t {nm}_u;\n'
            used += [nm + '_arr', nm + '_u']
        elif r < .71:
            s += f'/** doc {nm} \'int (int)\' */\nint {nm}(); int {nm}(int x); extern int {nm}(int);\n'
        elif r < .74:
            s += f'_Noreturn void {nm}(const char *fmt, ...) __attribute__((format(printf, 1, 2)));\n'
        elif r < .77:
            s += f'typedef struct {{ int (*cb)(int); }} {nm}_t; void {nm}({nm}_t *self, int (*f)({nm}_t));\n'
        elif r < .80:
            s += f'int (*{nm}(int a))(int);\n' if rng.random() < .5 else f'int (*{nm}[3])(void);\n'
        elif r < .83:
            s += f'struct {{ int a; }} {nm};\n' if rng.random() < .5 else f'extern struct S {nm}[2][N];\n'
        elif r < .87:
            s += f'void {nm}(int a[3], int b[], int (*c)[3], fn_t d, void (*e)(void));\n'
        elif r < .9:
            s += f'extern int (*{nm})[3]; extern const char *const *volatile {nm}_p;\n'
            used.append(nm + '_p')
        elif r < .93:
            s += f'vfn_t {nm}; void {nm}(void);\n'
        elif r < .945:
            t = rng.choice(['int (*(*@)(int))[3]', 'int (**@)(int)', 'int (**@)[3]', 'char *(*(*@)(void))(int)', 'int (*(*@)[3])(int)', 'int (*(*(*@)(void))(int))[2]'])
            s += rng.choice([f'extern {t.replace("@", nm)};\n', f'void {nm}({t.replace("@", "cb")});\n', f'int *{nm}({t.replace("@", "")}, int (*g)(int (*)(int)));\n'])
        elif r < .96:
            s += f'_Complex double {nm}(__int128 a, _Bool b, long double c);\n'
        else:
            s += f'int {nm} __attribute__((aligned(16))) = 3; int {nm};\n'
    return s, used


def check(ck):
    tool = F.static_tool()
    rng = ck.rng
    top = 3
    rc, out = c.tlc('AstMC', f'SPECIFICATION Spec\nCONSTANT MaxTop = {top}\nINVARIANTS ReadsWhatIsMeant ParametersMatchType Report\n', workers=8)
    if rc:
        raise c.Broken('AstMC: ' + out[-1500:])
    forests = sorted(set(re.findall(r'"FOREST",\s*"([^"]*)"', out)))
    ck.cov['TLC AstMC'] = f'{c.tlc_numbers(out)[1]} forests of up to {top} subtrees, read as meant'
    limit = len(forests) if c.THOROUGH else 6000
    short = [f for f in forests if f.count(';') <= 4]
    if len(forests) > limit:
        forests = short[:1500] + rng.sample(forests, limit - min(len(short), 1500))
    cases = []
    for f in forests:
        ls = []
        for x in f.rstrip(';').split(';'):
            d, k, nm, ty = x.split('|')
            ls.append(A.line(int(d), k, nm, ty.split()))
        p, sy, all_ = rng.choice([((), (), True), ((), (), True), (('f',), (), False), ((), ('f',), False), ((), ('f', 'g'), False), ((), ('g', 'zz'), False),
                                  (('f', 'g'), (), False), (('g',), ('f',), False), (('n',), ('nested', 'f'), False), ((), (), False), (('f',), ('g', 'g'), True)])
        cases.append(A.AstCase(A.Style(rng).render(ls), ls, p, sy, all_))
    res, ev, bad = F.judge_cases(tool, cases, ck, 'dump from the specification', event=A.event, module='AstTrace')
    ck.cov['dumps from the specification'] = f'{len(cases)}, {sum(1 for r in res if r[0] == 0)} accepted'

    # random dumps: types, names, many nodes
    cases = []
    for _ in range(15000 if c.THOROUGH else 1500):
        ls = []
        nms = []
        for k in range(rng.choice([1, 2, 3, 6, 12] if rng.random() < .98 else [30, 60])):
            nm = rng.choice(['f', 'foo', 'bar', 'x_1', 'get', 'getter', '_a', 'A9', 'FunctionDecl', 'VarDecl_', 'F']) + rng.choice(['', '', str(k)])
            nms.append(nm)
            r = rng.random()
            if r < .5:
                n = rng.choice([0, 0, 1, 1, 2, 3, 5])
                b = words(rng.choice(BASES)) + [x for x in ptrs(rng) if x != 'restrict']
                if '_x' in b and rng.random() < .1:
                    b = ['struct', '_x']
                ps = [param_type(rng) for _ in range(n)]
                va = n > 0 and rng.random() < .2
                args = [t for k2, q in enumerate(ps) for t in ([','] if k2 else []) + q] + ([',', '...'] if va else [])
                if not n:
                    args = rng.choice([[], ['void']])
                fn = ['('] + args + [')']
                for _ in range(rng.choice([0] * 12 + [1, 1, 2])):
                    # the pointers of the return type in parentheses with the function
                    fn = ['('] + [t for _ in range(rng.choice([1, 1, 2])) for t in ['*'] + words(rng.choice(['', '', '', 'const', 'volatile', 'restrict', 'const volatile']))] + fn + [')']
                ty = b + fn + (words(rng.choice(['__attribute__ ( ( noreturn ) )', '__attribute__ ( ( cdecl ) )'])) if rng.random() < .1 else [])
                if rng.random() < .1:
                    ls.append(A.line(1, 'func', nm, ['fn_t'], ty))
                else:
                    ls.append(A.line(1, 'func', nm, ty))
                for q in ps:
                    ls.append(A.line(2, 'parm', rng.choice(['', 'a', 'a1', 'a2', 'name']), q, ['int'] if q == ['foo_t'] and rng.random() < .5 else []))
                    if rng.random() < .1:
                        ls.append(A.line(3, 'NonNullAttr'))
                if rng.random() < .3:
                    ls.append(A.line(2, 'VisibilityAttr'))
                if rng.random() < .2:
                    ls += [A.line(2, 'CompoundStmt'), A.line(3, 'DeclStmt'), A.line(4, 'var', 'local', ['int'])]
            elif r < .8:
                q = param_type(rng)
                ls.append(A.line(1, 'var', nm, q, ['int'] if q == ['foo_t'] else []))
                if rng.random() < .3:
                    ls.append(A.line(2, 'IntegerLiteral'))
            else:
                ls.append(A.line(1, rng.choice(['RecordDecl', 'TypedefDecl', 'EnumDecl', 'EmptyDecl', 'NamespaceDecl', 'LinkageSpecDecl', 'FunctionTemplateDecl'])))
                if rng.random() < .5:
                    ls.append(A.line(2, rng.choice(['func', 'var']), nm, ['int', '(', 'void', ')'] if rng.random() < .5 else ['int']))
                    if rng.random() < .5:
                        ls.append(A.line(3, 'parm', 'p', ['int']))
        k = rng.random()
        p, sy, all_ = ((), (), True) if k < .4 else ([rng.choice(nms)[:rng.choice([1, 2, 4])] for _ in range(rng.choice([0, 1, 2]))],
                                                     [rng.choice(nms + ['zz'] * (rng.random() < .2)) for _ in range(rng.choice([0, 1, 1, 3]))], False)
        cases.append(A.AstCase(A.Style(rng).render(ls), ls, p, sy, all_))
    res, ev, bad = F.judge_cases(tool, cases, ck, 'random dump', event=A.event, module='AstTrace')
    ck.cov['random dumps'] = f'{len(cases)}, {sum(1 for r in res if r[0] == 0)} accepted'

    # dumps made by Clang, compared with their JSON form
    work = c.sub('clang')
    hs = []
    for k in range(400 if c.THOROUGH else 60):
        s, used = header(rng, rng.choice([1, 2, 4, 8, 15]))
        p = os.path.join(work, f'h{k}.h')
        with open(p, 'w') as f:
            f.write(s)
        hs.append((p, used, rng.random() < .4))
    dumps = c.pmap(lambda h: A.clang_dump(h[0], h[2]), hs)
    cases, skipped = [], 0
    for (p, used, col), (text, ls, err) in zip(hs, dumps):
        if text is None:
            skipped += 1
            continue
        if rng.random() < .2:
            text = text.replace(b'\n', b'\r\n')
        for q in range(3):
            k = rng.random()
            if k < .3:
                sel = ((), (), True)
            elif k < .6:
                sel = ([rng.choice(used)[:3]], (), False)
            else:
                sel = ((), rng.sample(used, min(len(used), rng.choice([1, 2, 4]))), False)
            cases.append(A.AstCase(text, ls, *sel))
    if skipped > len(hs) * .7:
        raise c.Broken('Clang rejects most headers: ' + dumps[[d[0] for d in dumps].index(None)][2][-400:])
    res, ev, bad = F.judge_cases(tool, cases, ck, 'dump made by Clang', event=A.event, module='AstTrace')
    ck.cov['dumps made by Clang 18'] = f'{len(hs) - skipped} headers ({skipped} rejected by Clang), {len(cases)} runs, {sum(1 for r in res if r[0] == 0)} accepted'
    ck.assumptions.append('the JSON form of a Clang dump tells the same as its text form; types with attributes or without a name may be rejected')


NESTED = ['( * ( * ) ( int ) ) [ 3 ]', '( * * ) ( int )', '( * * ) [ 3 ]', '( * ( * ) ( void ) ) ( int )', '( * ( * ) [ 3 ] ) ( int )',
          '( * ( * ) ( char * , int ) ) ( void )', '( * ( * ( * ) ( void ) ) ( int ) ) [ 2 ]', '( * const * ) ( void )', '( * ( * * ) ( int ) ) ( void )',
          '( * ( * ) ( int ( * ) ( void ) ) ) ( int )', '( * ) ( int ( * ) ( int ) , char )']


def param_type(rng):
    b = words(rng.choice(PBASES))
    b = [x for x in b if x != 'register']
    p = [x for x in ptrs(rng)]
    if b == ['void'] and not p:
        p = ['*']
    k = rng.random()
    if k < .65:
        return b + p
    if k < .75:
        # a pointer to something derived twice, or a pointer to a pointer to something derived
        return b + p + rng.choice(NESTED).split()
    if k < .87:
        return b + p + ['(', '*'] + (['const'] if rng.random() < .1 else []) + [')', '('] + rng.choice([['void'], ['int'], ['int', ',', 'char', '*'], ['const', 'char', '*', ',', '...']]) + [')']
    return b + p + rng.choice([['[', '3', ']'], ['[', '2', ']', '[', '4', ']'], ['(', '*', ')', '[', '3', ']'], ['[', '5', ']']])


c.main(check, 'C14', 'model_checking')
