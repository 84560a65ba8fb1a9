"""One program made of several generated headers with different prefixes."""
import os, re
import common as c
import genharness as g
import loader as L


def instance(code, k, syms, same_tu, pfx, wantlib, wantflags):
    """turn a stand-alone harness into functions instK_init / instK_cmd"""
    U = pfx.upper()
    head, rest = code.split(g.common_tables(syms), 1)
    a = rest.index('int main(void)')
    b = rest.index('    while (fgets(')
    d = rest.index("        if (ntok < 2) continue;")
    e = rest.rindex('    exit(0);')
    init = rest[a:b].replace('int main(void)', f'void inst{k}_init(void)').replace('fk_real_atexit(final_dump);', f'fk_inst = {k};')
    init = re.sub(r'(fk_addstr\("exe", exe\(\)\);)', rf'fk_addstr("wantlib", {g.cstr(wantlib)}); fk_add(",\\"wantflags\\":%d", {wantflags}); \1', init)
    loop = rest[d:e].rstrip()
    assert loop.endswith('}')
    loop = loop[:-1].replace('if (ntok < 2) continue;', f'fk_inst = {k};').replace('if (ntok < 3) continue;', 'if (ntok < 3) return;')
    body = rest[:a] + init + '}\n' + f'void inst{k}_cmd(char *line)\n{{\n        snprintf(linebuf, sizeof linebuf, "%s", line); split(linebuf); (void)final_dump;\n' + loop + '}\n'
    if same_tu:
        # aliases of several headers would clash: use the prefixed pointers
        for n, kind in syms:
            body = body.replace(f'return {n}(x);', f'return {U}_RAWPTR_{n}(x);').replace(f'return x + {n};', f'return x + *{U}_RAWPTR_{n};')
    ext = 'extern const char *const fk_names[]; extern const int fk_nsym; extern int fk_inst;'
    head = re.sub(r'(#ifdef __cplusplus\s*extern "C" \{\s*#endif|extern "C" \{)\s*$', '', head)
    body = re.sub(r'^\s*(#ifdef __cplusplus\s*\}\s*#endif|\})', '', body, count=1)
    return head, ext, body


MAIN = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fakedl.h"
@TABLES@
int fk_inst = -1;
@DECL@
static void fin(void) { fk_inst = -1; fk_calls_only("exit"); }
int main(void)
{
    static char line[1 << 20], q[64];
    fk_real_atexit(fin);
    @INIT@
    while (fgets(line, sizeof line, stdin)) {
        int k = atoi(line);
        char *cmd = strchr(line, ' ');
        if (!strncmp(line, "- exit", 6)) exit(0);
        if (!cmd) continue;
        cmds[k](cmd + 1);
        for (int j = 0; j < NINST; j++) if (j != k) { strcpy(q, "- query 0\n"); cmds[j](q); }
    }
    exit(0);
}
'''


def build(tool, insts, syms, same_tu, n):
    """insts = [dict(lang, pfx, gen, cflags, separate)]"""
    w = c.sub(f'coex-{n}')
    flags = L.DL + ['-I' + L.HARN, '-I.', '-O1', '-Wl,--wrap=atexit']
    srcs, heads, bodies = [], [], []
    with open(os.path.join(w, 'in.h'), 'w') as f:
        f.write(g.protos(syms))
    for k, i in enumerate(insts):
        pfx = re.sub('[^a-z0-9]', '_', i['pfx'].lower())
        U = pfx.upper()
        hdr = f'h{k}.' + ('h' if i['lang'] == 'c' else 'hpp')
        args = ['-format=' + ('C' if i['lang'] == 'c' else 'C++'), '-no-date', '-force', '-prefix=' + i['pfx'], '-out=' + hdr] + i['gen']
        if i['separate']:
            args.append('-separate')
        r = c.gen(tool, args + ['in.h'], cwd=w)
        if r.returncode:
            raise c.BuildFailure(f'gendlopen {" ".join(args)} failed: ' + r.stderr.decode('utf8', 'replace'))
        fl = [x.replace('GDO_', U + '_') for x in i['cflags']] + [f'-D{U}_DEFAULT_LIB="lib-of-{k}"', f'-D{U}_DEFAULT_FLAGS={1 + 256 * (k % 2)}']
        code = g.c_harness(syms, hdr, pfx) if i['lang'] == 'c' else g.cxx_harness(syms, hdr, pfx)
        head, ext, body = instance(code, k, syms, same_tu, pfx, f'lib-of-{k}' if i['lang'] == 'c' else '', 1 + 256 * (k % 2))
        xx = i['lang'] == 'cxx'
        if i['separate']:
            src = f'h{k}.' + ('c' if not xx else 'cpp')
            o = f'body{k}.o'
            c.compile_c(o, [src], [x for x in flags if not x.startswith('-Wl')] + fl + ['-c'], cc='g++' if xx or same_tu else 'gcc', cwd=w) if not same_tu or xx \
                else c.compile_c(o, ['-x', 'c++', src], [x for x in flags if not x.startswith('-Wl')] + fl + ['-c'], cc='g++', cwd=w)
            srcs.append(o)
        if same_tu:
            flags += [f'-D{U}_DISABLE_ALIASING'] + fl
            heads.append(head)
            body = body.replace('#define RET', '#undef RET\n#define RET')
            bodies.append(f'namespace n{k} {{\n{body}\n}}')
        else:
            fn = f'inst{k}.' + ('cpp' if xx else 'c')
            wrap = re.sub(r'^void inst', 'extern "C" void inst', body, flags=re.M) if xx else body
            extx = 'extern "C" {' + ext + '}' if xx else ext
            with open(os.path.join(w, fn), 'w') as f:
                f.write(head + '\n' + extx + '\n' + wrap)
            c.compile_c(f'inst{k}.o', [fn], [x for x in flags if not x.startswith('-Wl')] + fl + ['-c'], cc='g++' if xx else 'gcc', cwd=w)
            srcs.append(f'inst{k}.o')
    ni = len(insts)
    q = (lambda k: f'n{k}::') if same_tu else (lambda k: '')
    decl = ('' if same_tu else ' '.join(f'void inst{k}_init(void); void inst{k}_cmd(char *);' for k in range(ni))) + \
        f'\nenum {{ NINST = {ni} }};\nstatic void (*const cmds[])(char *) = {{ ' + ', '.join(f'{q(k)}inst{k}_cmd' for k in range(ni)) + ' };'
    main = MAIN.replace('@TABLES@', ('extern "C" {' if same_tu else '') + g.common_tables(syms) + ('}' if same_tu else '')) \
        .replace('@INIT@', ' '.join(f'{q(k)}inst{k}_init();' for k in range(ni))).replace('@DECL@', decl)
    if same_tu:
        ext = 'extern "C" { extern const char *const fk_names[]; extern const int fk_nsym; } extern int fk_inst;\n'
        main = '\n'.join(heads) + '\n' + ext + '\n'.join(bodies) + main
    fn = 'main.cpp' if same_tu else 'main.c'
    with open(os.path.join(w, fn), 'w') as f:
        f.write(main)
    c.compile_c('fk.o', [os.path.join(L.HARN, 'fakedl.c')], L.DL + ['-c', '-O1', '-DFK_INST'], cwd=w)
    if not same_tu:
        c.compile_c('main.o', [fn], ['-c', '-I' + L.HARN], cwd=w)
        fn = 'main.o'
    exe = os.path.join(w, 'h')
    c.compile_c(exe, [fn, 'fk.o'] + srcs, flags, cc='g++', cwd=w)
    return exe
