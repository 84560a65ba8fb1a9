"""Random C declarations and ways to write them down."""
import re

W = re.compile(r'\w')


# ------------------------------------------------------------ writing tokens
COMMENTS = ['/* , ) ; */', '/**/', '/* int zz(void); " \' */', '/***/', '/* // */', '/*\n#define x\n*/', '/* \\\n * / */', '// x ; \n', '//\n',
            '// int zz(void); \\\n still ) "\n', '// /* \n', '/* %option include=zz\n*/', '/*\n%option include=zz\n*/', '// \'\n', '/*/ ; */',
            '/\\\n* ; *\\\n/', '/\\\n/ ; \n', '/* { */', '// } \n', '/\\\n\\\n* ; *\\\n\\ \n/', '/\\\r\n\\\n/ ; " \n', '/* *\\\n\\\n\\\n/']
SPACES = [' ', '\n', '\t', '  ', '\r\n', '\\\n', ' \\ \t\n', '\n\n', '\f', '\v']
DIRECTIVES = ['#if 0 ; {', '#define x "/*" int zz(void);', '  # define y \'"\' // int zz(void);', '#define z /* a\n; int zz(void); \n*/ {',
              '#define w \\\n int zz(void); \\\n }', '#pragma \'', '#error don\'t', '#', '# 1 "/*.h"', '#define s "\\"/*" \\\n "/*"', '#endif // \\\n int zz(void);',
              '#define l "a\\\nb/*"', '\t#x /**/ /* ; */ =', '#include <a//b>', '#define q //*', '#define t//* " \'', '#define u "\\\\" /* " */ ; int zz(void);', '#define v 1/\\\n\\\n* \n */ ;', '\x0c#define f ; {',
              '#\\\v\ndefine a \' // \\\f\n int zz(void);', "#define b '\\\\' // it's", '#define g "\\\\" "/*"', "#define h '\\\\' '\"/*'", '#define c "a\\"/*b" int zz(void);', '#error "don\'t /* " \'\\\'\' // "']


def gap(rng, need, full):
    """something ignored between two tokens"""
    s = ''
    for _ in range(rng.choice([1, 1, 1, 2, 3]) if full else 1):
        k = rng.random()
        if k < .45 or not full:
            s += rng.choice(SPACES if full else [' ', ' ', '\n', '\t', '  '])
        elif k < .8:
            s += rng.choice(COMMENTS)
        else:
            s += '\n' + rng.choice(DIRECTIVES) + '\n'
    if s[:1] == '\\' or s[:2] == '/\\':
        s = ' ' + s                       # a line split that begins within a word is another matter
    if s[-1:] == '\n' and s.rstrip(' \t\n')[-1:] == '\\':
        s += ' '
    return s


def render(toks, rng, full, dense):
    s = ''
    for k, t in enumerate(toks):
        if k:
            need = bool(W.match(toks[k - 1][-1]) and W.match(t[0]))
            if need or rng.random() < dense:
                g = gap(rng, need, full)
                s += g
        s += t
    return s


def end(rng, full):
    if not full or rng.random() < .5:
        return rng.choice([';', ';\n', ' ;\n', ';;\n'])
    return gap(rng, False, True) + ';' + gap(rng, False, True)


# ------------------------------------------------------- random declarations
BASES = ['int', 'void', 'char', 'unsigned int', 'long long unsigned', 'const char', 'char const', 'foo_t', 'const foo_t', 'volatile int', 'size_t', '_Bool',
         'double', 'long double', 'const volatile long', 'integer', 'structure', 'unsigned', 'short', 'u8', 'const struct S', 'externs', 'voids', '_x']
PBASES = BASES[1:] + ['struct S', 'enum E', 'union U', 'const struct foo', 'register int', 'a1', 'a2', 'const a3', 'a1_t', 'double _Complex']


def words(s):
    return s.split()


def ptrs(rng, hi=3):
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, hi])):
        out.append('*')
        if rng.random() < .25:
            out += words(rng.choice(['const', 'volatile', 'restrict', 'const volatile', 'const const']))
    return out


def param(rng, name, depth=0):
    b = words(rng.choice(PBASES))
    p = ptrs(rng)
    if b == ['void'] and not p:
        p = ['*']
    k = rng.random()
    nm = [name] if name else []
    if k < .68 or depth > 1:
        return b + p + nm
    if k < .82:
        dims = []
        for _ in range(rng.choice([1, 1, 2])):
            dims += ['['] + words(rng.choice(['', '3', 'N', '16'])) + [']']
        return b + p + nm + dims
    inner = plist(rng, rng.choice([0, 1, 2]), 'mixed', depth + 1)
    return b + p + ['(', '*'] + nm + [')', '('] + inner + [')']


def plist(rng, n, mode, depth=0):
    """tokens of a parameter list"""
    if n == 0:
        return rng.choice([[], ['void']])
    out = []
    for k in range(n):
        named = {'named': True, 'unnamed': False, 'mixed': rng.random() < .5}[mode]
        if k:
            out.append(',')
        out += param(rng, f'p{depth}{chr(97 + k % 26)}{k}' if named else '', depth)
    if rng.random() < .15:
        out += [',', '...']
    return out


def redundant(rng, toks):
    return ['('] * (n := rng.choice([1, 1, 2, 3])) + toks + [')'] * n


def declaration(rng, name, mode=None, kind=None):
    mode = mode or rng.choice(['named', 'unnamed', 'mixed'])
    b = words(rng.choice(BASES))
    if b[0] in ('struct', 'union', 'enum'):
        b = ['const'] + b
    p = ptrs(rng)
    ext = ['extern'] if rng.random() < .15 else []
    kind = kind or rng.choice(['f', 'f', 'f', 'fp', 'fpp', 'o', 'a', 'fo'])
    if b == ['void'] and not p and kind in ('o', 'a'):
        p = ['*']
    ps = plist(rng, rng.choice([0, 1, 1, 2, 3, 4, rng.randrange(5, 12)]), mode)
    if kind == 'f':
        d = b + p + [name, '('] + ps + [')']
    elif kind == 'fp':                       # parenthesised name
        d = b + p + redundant(rng, [name]) + ['('] + ps + [')']
    elif kind == 'fpp':                      # pointer and name in parentheses
        d = b + p + redundant(rng, ['*'] * rng.choice([1, 2]) + [name, '('] + ps + [')'])
    elif kind == 'o':
        d = b + p + [name]
    elif kind == 'a':
        d = b + p + [name]
        for _ in range(rng.choice([1, 1, 2, 3])):
            d += ['['] + words(rng.choice(['', '7', 'N'])) + [']']
    else:
        d = b + p + redundant(rng, ['*', name]) + ['('] + ps + [')']
    return ext + d


def names(rng, n):
    stock = ['foo', 'bar', 'f', 'int_', 'x1', 'extern_', 'structs', 'unions', '_z', 'A', 'void_', 'const1', 'foo_bar', 'foobar', 'typedefs', 'enumx', 'a1', 'a2']
    return rng.sample(stock, n) if n <= len(stock) and rng.random() < .7 else [f's{k}_{rng.randrange(1000)}' for k in range(n)]
