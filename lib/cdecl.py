"""C types as small trees: printing declarations, sample values, value-to-text code.

A type is a tuple:
  ('b', 'unsigned int')          base type, words in any order incl. qualifiers
  ('p', T, 'const')              pointer to T, qualifiers of the pointer
  ('a', T, '3')                  array of T ('' for an incomplete one)
  ('f', R, [(T, name), ...], va) function
"""

# types usable in every program: (words, kind)
INTS = ['int', 'unsigned int', 'unsigned', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short int',
        'long', 'long int', 'unsigned long', 'long long', 'unsigned long long int', 'size_t', 'gdl_int', 'int long', 'short unsigned',
        'voidint', 'voids', 'constant', 'unsignedlike', 'structure', 'enumeration', 'shorts', 'integer', 'returned', 'inliner', 'externs']
FLOATS = ['float', 'double', 'long double']
STRUCTS = ['struct gdl_s', 'gdl_t', 'union gdl_u', 'gdl_ut', 'gdl_st', 'void_s', 'struct_s']
SAME_S = ('struct gdl_s', 'gdl_st', 'void_s', 'struct_s')
ENUMS = ['enum gdl_e', 'gdl_et']

# names that look like keywords
LIKE = ['voidint', 'voids', 'void_s', 'void_s', 'struct_s', 'returned', 'inliner']

PRELUDE = '''#include <stddef.h>
struct gdl_s { int a; double b; char c[5]; };
typedef struct { short x; struct gdl_s s; } gdl_t;
union gdl_u { int i; float f; };
enum gdl_e { GDL_E0, GDL_E1 = 7, GDL_E2 = -3 };
typedef enum gdl_e gdl_et;
typedef int gdl_int;
typedef int (*gdl_cb)(int);
typedef union gdl_u gdl_ut;
typedef struct gdl_s gdl_st;
typedef struct gdl_s void_s;
typedef struct gdl_s struct_s;
typedef int voidint; typedef long voids; typedef long constant; typedef unsigned unsignedlike; typedef long long structure;
typedef int enumeration; typedef int shorts; typedef int integer; typedef long returned; typedef int inliner;
typedef int externs;
'''


def decl(t, name=''):
    """C declarator text of `name' with type t"""
    k = t[0]
    if k == 'b':
        return t[1] + (' ' + name if name else '')
    if k == 'p':
        q = t[2] + ' ' if len(t) > 2 and t[2] else ''
        inner = ('*' + q + name).rstrip() if name or q else '*'
        if t[1][0] in 'af':
            inner = '(' + inner + ')'
        return decl(t[1], inner)
    if k == 'a':
        return decl(t[1], f'{name}[{t[2]}]')
    if k == 'f':
        return decl(t[1], f'{name}({params(t)})')
    raise ValueError(t)


def params(t, names=True):
    ps = [decl(p, n if names else '') for p, n in t[2]]
    if t[3]:
        ps.append('...')
    return ', '.join(ps) if ps else 'void'


def strip_cv(words):
    return ' '.join(w for w in words.split() if w not in ('const', 'volatile'))


def kind(t):
    """what values of the type look like: int, uint?, float, struct, enum, ptr, fnptr, void"""
    if t[0] in 'af':
        return 'ptr' if t[0] == 'a' else 'fnptr'
    if t[0] == 'p':
        return 'fnptr' if t[1][0] == 'f' else 'ptr'
    w = strip_cv(t[1])
    if w == 'void':
        return 'void'
    if w in STRUCTS or w.replace(' struct', '') in STRUCTS:
        return 'struct'
    if w in ENUMS:
        return 'enum'
    if w in FLOATS:
        return 'float'
    if w == 'gdl_cb':
        return 'fnptr'
    return 'int'


def show(t, expr):
    """C statements appending the value of expr as text to buffer b (function ap)"""
    k = kind(t)
    if k in ('int', 'enum'):
        return f'ap("%lld", (long long)({expr}));'
    if k == 'float':
        return f'ap("%.21Lg", (long double)({expr}));'
    if k == 'ptr':
        return f'ap("%p", (const volatile void *)({expr}));'
    if k == 'fnptr':
        return f'ap("%p", (void *)({expr}));'
    if k == 'struct':
        w = strip_cv(t[1])
        if w in SAME_S:
            return f'ap("{{%d %g %s}}", ({expr}).a, ({expr}).b, ({expr}).c);'
        if w == 'gdl_t':
            return f'ap("{{%d %d %g %s}}", (int)({expr}).x, ({expr}).s.a, ({expr}).s.b, ({expr}).s.c);'
        return f'ap("{{%d}}", ({expr}).i);'
    raise ValueError(t)


def sample(t, rng, var):
    """(statement that defines variable `var' of a type convertible to t, expression to pass)"""
    k = kind(t)
    w = strip_cv(t[1]) if t[0] == 'b' else ''
    if k == 'int':
        v = rng.choice(['0', '1', '-1', '42', '127', '255', '32767', '2147483647', '-2147483647', '9223372036854775807LL',
                        '65535', str(rng.randint(-10**6, 10**6))])
        return f'{w} {var} = ({w}){v};'
    if k == 'enum':
        return f'{w} {var} = {rng.choice(["GDL_E0", "GDL_E1", "GDL_E2"])};'
    if k == 'float':
        return f'{w} {var} = ({w}){rng.choice(["0.0", "1.5", "-2.25", "1e30L", "3.14159L", "-0.0"])};'
    if k == 'struct':
        a, b, s = rng.randint(-99, 99), rng.randint(0, 50) / 4, rng.choice(['"ab"', '"wxyz"', '""'])
        if w in SAME_S:
            return f'struct gdl_s {var} = {{ {a}, {b}, {s} }};'
        if w == 'gdl_t':
            return f'gdl_t {var} = {{ {rng.randint(-9, 9)}, {{ {a}, {b}, {s} }} }};'
        return f'union gdl_u {var} = {{ {a} }};'
    if k == 'fnptr':
        f = t if t[0] == 'f' else t[1] if t[0] == 'p' else None
        cast = 'gdl_cb' if f is None else decl(('p', f, ''), '')
        local = 'gdl_cb ' + var if f is None else decl(('p', f, ''), var)
        return f'{local} = ({cast}){rng.choice(["dummyfn1", "dummyfn2", "0"])};'
    e = t[1]
    # an array with unknown bound cannot be what a variable's pointer refers to by value; fine as pointer
    cast = decl(('p', e, ''), '')
    local = decl(('p', e, ''), var)
    return f'{local} = ({cast})({rng.choice(["pool", "pool + 16", "pool + 33", "0"])});'


def rand_type(rng, depth=2, fn=True, ret=False):
    r = rng.random()
    if depth == 0 or r < 0.45:
        if ret and rng.random() < .2:
            return ('b', 'void')
        if ret and rng.random() < .25:
            return ('b', rng.choice(LIKE))
        w = rng.choice(INTS if rng.random() < .55 else FLOATS + STRUCTS + ENUMS)
        if rng.random() < .15 and not ret:
            w = rng.choice(['const ' + w, w + ' const'])
        return ('b', w)
    if r < 0.85 or not fn:
        # pointer to object
        inner = ('b', rng.choice(['void', 'const void', 'const char', 'char const', 'volatile int', 'const volatile long'])) \
            if rng.random() < .4 else rand_type(rng, depth - 1, False)
        return ('p', inner, rng.choice(['', '', '', 'const', 'volatile'] if not ret else ['']))
    if ret:
        return ('p', rand_type(rng, depth - 1, False), '')
    if r < 0.95:
        n = rng.randint(0, 2)
        return ('p', ('f', rand_type(rng, 1, False, True), [(rand_type(rng, 1, False), f'q{i}') for i in range(n)], False), '')
    return ('a', rand_type(rng, 1, False), rng.choice(['', '3', '12']))


def rand_func(rng, maxpar=5, va=False):
    n = rng.randint(1 if va else 0, maxpar)
    ps = [(rand_type(rng), f'p{i}') for i in range(n)]
    if va:
        # the last named parameter must survive default promotion
        while ps[-1][0][0] == 'a' or kind(ps[-1][0]) in ('fnptr',) or strip_cv(ps[-1][0][1] if ps[-1][0][0] == 'b' else 'x').split()[0] in ('char', 'short', 'float', 'signed', 'unsigned') or 'short' in str(ps[-1][0][1]):
            ps[-1] = (rand_type(rng), ps[-1][1])
    return ('f', no_tag(rand_type(rng, 2, False, True)), ps, va)


TAGS = {'struct gdl_s': 'gdl_st', 'union gdl_u': 'gdl_ut', 'enum gdl_e': 'gdl_et'}


def no_tag(t):
    """a declaration that begins with struct, union or enum is skipped as a block, so use the typedef"""
    if t[0] == 'b':
        return ('b', TAGS.get(t[1], t[1] if t[1].split()[0] not in ('struct', 'union', 'enum') else 'const ' + t[1]))
    return (t[0], no_tag(t[1])) + t[2:]
