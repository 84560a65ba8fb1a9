"""Programs that use several generated loaders on the system's real dynamic linker."""
import json, os, random
import common as c
import loader as L

SYMS = ['nx_count', 'nx_obj', 'nx_extra']
INPUT = 'int nx_count(void);\nextern int nx_obj;\nint nx_extra(int x);\n'
LIB = '''
int nx_obj = ID * 1000;
int nx_count(void) { return ++nx_obj; }
#ifndef PART
int nx_extra(int x) { return ID * 1000 + x; }
#endif
'''
API_H = '''
#ifndef API_H
#define API_H
#include <stdbool.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
struct api {
    bool (*load)(const char *, bool);
    bool (*all)(void);
    bool (*sym)(int);
    bool (*loaded)(void);
    void *(*ptr)(int);
    int (*call)(int);
    const char *(*path)(void);
    bool (*free_)(void);
    void (*force)(void);
    const char *(*error)(void);
};
#ifdef __cplusplus
}
#endif
#endif
'''
GETTERS = '''
static int g_call(int s) {{ return s == 0 ? nx_count() : s == 1 ? nx_obj : nx_extra(999); }}
static void *g_ptr(int s) {{ return s == 0 ? (void *){U}_RAWPTR_nx_count : s == 1 ? (void *){U}_RAWPTR_nx_obj : (void *){U}_RAWPTR_nx_extra; }}
'''
C_TU = '''
#include "{h}"
#include "api.h"
''' + GETTERS + '''
static bool g_load(const char *n, bool ns) {{
    static unsigned k;
    return ns || k++ % 2 ? {p}_load_lib_args(n, {U}_DEFAULT_FLAGS, ns) : {p}_load_lib_name(n);
}}
static bool g_all(void) {{ return {p}_load_all_symbols(); }}
static bool g_sym(int s) {{
    static unsigned k;
    if (k++ % 2) return {p}_load_symbol(s == 0 ? {U}_LOAD_nx_count : s == 1 ? {U}_LOAD_nx_obj : {U}_LOAD_nx_extra);
    return {p}_load_symbol_name(s == 0 ? "nx_count" : s == 1 ? "nx_obj" : "nx_extra");
}}
static bool g_loaded(void) {{ return {p}_lib_is_loaded(); }}
static const char *g_path(void) {{ return {p}_library_path(); }}
static bool g_free(void) {{ return {p}_free_lib(); }}
static void g_force(void) {{ {p}_force_free_lib(); }}
static const char *g_error(void) {{ return {p}_last_error(); }}
{ext}const struct api {v} = {{ g_load, g_all, g_sym, g_loaded, g_ptr, g_call, g_path, g_free, g_force, g_error }};
'''
CXX_TU = '''
#include "{h}"
#include "api.h"
#include <string>
static {p}::dl *d;
static {p}::dl &o() {{ if (!d) d = new {p}::dl; return *d; }}
static std::string text;
''' + GETTERS + '''
static bool g_load(const char *n, bool ns) {{
    static unsigned k;
    /* an object is free to be made anew for each library */
    if (!{p}::dl::lib_loaded() && ++k % 3 == 0) {{
        delete d;
        d = new {p}::dl(n, {p}::default_flags, ns);
        return d->load();
    }}
    return o().load(n, {p}::default_flags, ns);
}}
static bool g_all(void) {{ return o().load_all_symbols(); }}
static bool g_sym(int s) {{ return o().load_symbol(s == 0 ? "nx_count" : s == 1 ? "nx_obj" : "nx_extra"); }}
static bool g_loaded(void) {{ return {p}::dl::lib_loaded(); }}
static const char *g_path(void) {{ {{ {p}::dl a("nothing", {p}::default_flags, true), b; a.free_lib_in_dtor(false); b.free_lib_in_dtor(false); }} text = o().library_path(); return text.empty() ? NULL : text.c_str(); }}
static bool g_free(void) {{ return o().free(); }}
static void g_force(void) {{ static unsigned k; if (++k % 2) {{ delete d; d = NULL; if ({p}::dl::lib_loaded()) o().free(true); }} else o().free(true); }}
static const char *g_error(void) {{ text = o().error(); return text.c_str(); }}
extern "C" {{ extern const struct api {v}; const struct api {v} = {{ g_load, g_all, g_sym, g_loaded, g_ptr, g_call, g_path, g_free, g_force, g_error }}; }}
'''
AUTO_TU = '''
#include "{h}"
#include "api.h"
''' + GETTERS + '''
static bool g_load(const char *n, bool ns) {{ return {p}_load_lib_args(n, {U}_DEFAULT_FLAGS, ns); }}
static bool g_all(void) {{ return {p}_load_all_symbols(); }}
static bool g_sym(int s) {{ return {p}_load_symbol(s == 0 ? {U}_LOAD_nx_count : s == 1 ? {U}_LOAD_nx_obj : {U}_LOAD_nx_extra); }}
static bool g_loaded(void) {{ return {p}_lib_is_loaded(); }}
static const char *g_path(void) {{ return {p}_library_path(); }}
static bool g_free(void) {{ return {p}_free_lib(); }}
static void g_force(void) {{ {p}_force_free_lib(); }}
static const char *g_error(void) {{ return {p}_last_error(); }}
const struct api {v} = {{ g_load, g_all, g_sym, g_loaded, g_ptr, g_call, g_path, g_free, g_force, g_error }};
'''
AUTOXX_TU = '''
#include "{h}"
#include "api.h"
#include <string>
static {p}::dl &o() {{ static {p}::dl d; d.free_lib_in_dtor(false); return d; }}
static std::string text;
''' + GETTERS + '''
static bool g_load(const char *n, bool ns) {{ return o().load(n, {p}::default_flags, ns); }}
static bool g_all(void) {{ return o().load_all_symbols(); }}
static bool g_sym(int s) {{ return o().load_symbol(s == 0 ? {U}_LOAD_nx_count : s == 1 ? {U}_LOAD_nx_obj : {U}_LOAD_nx_extra); }}
static bool g_loaded(void) {{ return {p}::dl::lib_loaded(); }}
static const char *g_path(void) {{ text = o().library_path(); return text.empty() ? NULL : text.c_str(); }}
static bool g_free(void) {{ return o().free(); }}
static void g_force(void) {{ o().free(true); }}
static const char *g_error(void) {{ text = o().error(); return text.c_str(); }}
extern "C" {{ extern const struct api {v}; const struct api {v} = {{ g_load, g_all, g_sym, g_loaded, g_ptr, g_call, g_path, g_free, g_force, g_error }}; }}
'''
MIN_TU = '''
#include "{h}"
#include "api.h"
static const char *err = "";
static int g_call(int s) {{ return s == 0 ? nx_count() : s == 1 ? nx_obj : nx_extra(999); }}
static void *g_ptr(int s) {{ return s == 0 ? (void *)nx_count : s == 1 ? (void *)&(nx_obj) : (void *)nx_extra; }}
static bool g_load(const char *n, bool ns) {{ const char *e = {p}_load_library_and_symbols(n); (void)ns; err = e ? e : ""; return e == NULL; }}
static bool g_free(void) {{ {p}_free_library(); return true; }}
static const char *g_error(void) {{ return err; }}
const struct api {v} = {{ g_load, NULL, NULL, NULL, g_ptr, g_call, NULL, g_free, NULL, g_error }};
'''
MINXX_TU = '''
#include "{h}"
#include "api.h"
#include <string>
static std::string err;
static int g_call(int s) {{ return s == 0 ? nx_count() : s == 1 ? nx_obj : nx_extra(999); }}
static void *g_ptr(int s) {{ return s == 0 ? (void *)nx_count : s == 1 ? (void *)&(nx_obj) : (void *)nx_extra; }}
static bool g_load(const char *n, bool ns) {{
    (void)ns;
    err = "";
    try {{ {p}::load_library_and_symbols(n); }} catch (const std::exception &e) {{ err = e.what(); return false; }}
    return true;
}}
static bool g_free(void) {{ {p}::free_library(); return true; }}
static const char *g_error(void) {{ return err.c_str(); }}
extern "C" {{ extern const struct api {v}; const struct api {v} = {{ g_load, NULL, NULL, NULL, g_ptr, g_call, NULL, g_free, NULL, g_error }}; }}
'''
PLUG_TU = '''
#include "{h}"
#include "api.h"
static {p}_plugin_t *list;
void plug_load(const char *a, const char *b);
void plug_release(void);
void plug_load(const char *a, const char *b) {{ const char *n[2]; n[0] = a; n[1] = b; list = {p}_load_plugins(n, 2); }}
void plug_release(void) {{ {p}_release_plugins(list); list = NULL; }}
static void *g_ptr(int k, int s) {{
    return !list ? NULL : s == 0 ? (void *)list->list[k].ptr.nx_count : s == 1 ? (void *)list->list[k].ptr.nx_obj : (void *)list->list[k].ptr.nx_extra;
}}
static int g_call(int k, int s) {{ return s == 0 ? list->list[k].ptr.nx_count() : s == 1 ? *list->list[k].ptr.nx_obj : list->list[k].ptr.nx_extra(999); }}
static bool loaded(int k) {{ return list && list->list[k].handle; }}
static bool l0(void) {{ return loaded(0); }}
static bool l1(void) {{ return loaded(1); }}
static void *p0(int s) {{ return g_ptr(0, s); }}
static void *p1(int s) {{ return g_ptr(1, s); }}
static int c0(int s) {{ return g_call(0, s); }}
static int c1(int s) {{ return g_call(1, s); }}
const struct api {v}0 = {{ NULL, NULL, NULL, l0, p0, c0, NULL, NULL, NULL, NULL }};
const struct api {v}1 = {{ NULL, NULL, NULL, l1, p1, c1, NULL, NULL, NULL, NULL }};
'''
MAIN = r'''
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include "api.h"
@EXTERNS@
void plug_load(const char *a, const char *b);
void plug_release(void);
#ifndef PLUG
void plug_load(const char *a, const char *b) { (void)a; (void)b; }
void plug_release(void) {}
#endif
static const struct api *const apis[] = { @APIS@ };
static const char *const kinds[] = { @KINDS@ };
static const int napi = (int)(sizeof apis / sizeof *apis);
static struct { char key[64]; char *path; } names[64];
static int nnames;
static char *dirs[16], *files[32];
static char line[20000];
static FILE *out;

static void jstr(const char *k, const char *s)
{
    fprintf(out, ",\"%s\":\"", k);
    for (; *s; s++) if ((unsigned char)*s < 32 || *s == '"' || *s == '\\' || (unsigned char)*s > 126) fputc('?', out); else fputc(*s, out);
    fputc('"', out);
}
/* a copy on the heap that is gone as soon as the call is over */
static char *name(const char *key)
{
    for (int i = 0; i < nnames; i++) if (!strcmp(names[i].key, key)) return strdup(names[i].path);
    fprintf(stderr, "no name %s\n", key);
    _exit(99);
}
static int which(const char *path)
{
    struct stat a, b;
    if (stat(path, &a)) return 0;
    for (int i = 1; files[i]; i++) if (!stat(files[i], &b) && a.st_ino == b.st_ino && a.st_dev == b.st_dev) return i;
    return 0;
}
static void seen(const char *err)
{
    jstr("err", err);
    fprintf(out, ",\"loaded\":[");
    for (int i = 0; i < napi; i++) fprintf(out, "%s%s", i ? "," : "", (apis[i]->loaded ? apis[i]->loaded() : apis[i]->ptr(0) != NULL) ? "true" : "false");
    fprintf(out, "],\"ptr\":[");
    for (int i = 0; i < napi; i++) {
        fprintf(out, "%s[", i ? "," : "");
        for (int s = 0; s < 3; s++) fprintf(out, "%s%s", s ? "," : "", apis[i]->ptr(s) ? "true" : "false");
        fprintf(out, "]");
    }
    fprintf(out, "]}\n");
    fflush(out);
}
int main(int argc, char **argv)
{
    FILE *w;
    char a[64], b[64], d[64];
    (void)argc;
    /* the world: name KEY PATH, dir N PATH, file N PATH */
    if (!(out = fopen(argv[1], "w")) || !(w = fopen(argv[2], "r"))) { perror("open"); return 99; }
    while (fgets(line, sizeof line, w)) {
        int n = 0;
        line[strcspn(line, "\n")] = 0;
        if (sscanf(line, "%63s %63s %n", a, b, &n) < 2) continue;
        if (!strcmp(a, "name")) { strcpy(names[nnames].key, b); names[nnames++].path = strdup(line + n); }
        else if (!strcmp(a, "dir")) dirs[atoi(b)] = strdup(line + n);
        else files[atoi(b)] = strdup(line + n);
    }
    fclose(w);
    while (fgets(line, sizeof line, stdin)) {
        const char *err = "";
        int i = 0, s = 0, ns = 0;
        line[strcspn(line, "\n")] = 0;
        /* - op instance ... */
        char op[32];
        if (sscanf(line, "- %31s %n", op, &s) < 1) continue;
        const char *rest = line + s;
        if (!strcmp(op, "init")) { fprintf(out, "%s\n", rest); fflush(out); continue; }
        if (!strcmp(op, "exit")) break;
        const struct api *p = NULL;
        if (strcmp(op, "cd")) { i = atoi(rest); if (i < 1 || i > napi) _exit(99); p = apis[i - 1]; }
        bool ret = true;
        fprintf(out, "{\"op\":\"%s\",\"i\":%d", op, i);
        if (!strcmp(op, "cd")) { int k = atoi(rest); if (chdir(dirs[k])) { perror("chdir"); _exit(99); } fprintf(out, ",\"d\":%d", k); }
        else if (!strcmp(op, "load")) {
            sscanf(rest, "%*d %63s %d", a, &ns);
            char *n = name(a);
            jstr("name", a);
            fprintf(out, ",\"ns\":%s", ns ? "true" : "false");
            ret = p->load(n, ns != 0);
            if (!ret) err = p->error();
            memset(n, 'Z', strlen(n));
            free(n);
        }
        else if (!strcmp(op, "plugins")) {
            sscanf(rest, "%*d %63s %63s", b, d);
            char *n = name(b), *m = name(d);
            jstr("name", b); jstr("name2", d);
            plug_load(n, m);
            memset(n, 'Z', strlen(n)); memset(m, 'Z', strlen(m));
            free(n); free(m);
        }
        else if (!strcmp(op, "release")) plug_release();
        else if (!strcmp(op, "all")) { ret = p->all(); if (!ret) err = p->error(); }
        else if (!strcmp(op, "sym") || !strcmp(op, "call")) {
            sscanf(rest, "%*d %d", &s);
            fprintf(out, ",\"s\":%d", s);
            if (op[0] == 's') { ret = p->sym(s - 1); if (!ret) err = p->error(); }
            else {
                int v = 0;
                fflush(out);
                ret = !strcmp(kinds[i - 1], "auto") ? s != 2 || p->ptr(1) != NULL : p->ptr(s - 1) != NULL;
                if (ret) v = p->call(s - 1);
                fprintf(out, ",\"val\":%d", v);
            }
        }
        else if (!strcmp(op, "path")) {
            const char *r = p->path();
            ret = r != NULL;
            if (!ret) err = p->error();
            else { fprintf(out, ",\"abs\":%s,\"file\":%d", r[0] == '/' ? "true" : "false", which(r)); jstr("path", r); }
        }
        else if (!strcmp(op, "free")) ret = p->free_();
        else if (!strcmp(op, "force")) { if (p->force) p->force(); else p->free_(); }
        else { fprintf(stderr, "bad op %s\n", op); _exit(99); }
        fprintf(out, ",\"ret\":%s", ret ? "true" : "false");
        seen(err ? err : "");
    }
    fprintf(out, "{\"end\":true}\n");
    fclose(out);
    exit(0);
}
'''


class World:
    """directories, libraries and the names by which they can be loaded"""

    def __init__(self, base, rng, rich):
        self.base = base
        self.w = w = os.path.join(base, 'world')
        deep = '/'.join('x' * 120 + str(k) for k in range(rng.choice([3, 12, 25]))) if rich else 'deep'
        odd = rng.choice(['with space', ' lead', 'a  b ', "quo'te", 'per%sent', '-dash', 'ff:00 fe00', 'r-xp 00000000 08:01 99']) if rich else 'sub'
        dirs = ['d1', 'd2'] + ([odd, deep] if rich else [])
        for d in dirs + ['sp']:
            os.makedirs(os.path.join(w, d))
        self.files = []      # (path, id, extra)

        def lib(path, k, extra=True):
            src = os.path.join(base, f'lib{k}.c')
            with open(src, 'w') as f:
                f.write(LIB)
            c.compile_c(os.path.join(w, path), [src], ['-shared', '-fPIC', '-w', f'-DID={k}'] + ([] if extra else ['-DPART']), cwd=w)
            self.files.append((os.path.join(w, path), k, extra))
        lib('d1/libone.so', 1)
        lib('d2/libpart.so', 4, False)
        os.symlink('../d1/libone.so', os.path.join(w, 'd2/liblink.so'))
        names = {'abs1': (w + '/d1/libone.so', None), 'rel': ('./libone.so', 'd1'), 'link': ('./liblink.so', 'd2'),
                 'part': (w + '/d2/libpart.so', None), 'none': ('/nowhere/libone.so', None)}
        res = {'abs1': 1, 'rel': 1, 'link': 1, 'part': 2, 'none': 0}
        if rich:
            # a relative directory of the search path: what it means depends on the working directory (the linker
            # remembers directories that did not exist, so all of them have it)
            for d in dirs:
                os.makedirs(os.path.join(w, d, 'rsp'))
            lib('sp/libsearch.so', 5)
            lib(odd + '/libodd.so', 6)
            lib(deep + '/lib deep.so', 7)
            lib('d2/libone.so', 3)
            os.link(os.path.join(w, 'd2/libone.so'), os.path.join(w, 'd1/libhard.so'))
            with open(w + '/d1/libbad.so', 'w') as f:
                f.write('this is not a library\n' * 100)
            names.update(search=('libsearch.so', None), odd=(w + '/' + odd + '/libodd.so', None), up=('../' + odd + '/libodd.so', ('d1', 'd2', odd)),
                         here=('./libodd.so', odd), deep=('./lib deep.so', deep), bad=(w + '/d1/libbad.so', None), hard=('../d1/libhard.so', ('d1', 'd2', odd)),
                         two=('./libone.so', 'd2'), twoabs=(w + '/d2/../d2/libone.so', None), dir=(w + '/d1', None), notfound=('libnotfound.so', None))
            lib('d1/rsp/librs.so', 8)
            lib('d2/rsp/librs.so', 9)
            names.update(rs=('librs.so', ('d1', 'd2')), bare=('libpart.so', 'no'), bare1=('libone.so', 'no'), rsabs=(w + '/d1/rsp/librs.so', None))
            res.update(rs=7, rsabs=7, bare=0, bare1=0)
            res.update(search=3, odd=4, up=4, here=4, deep=5, two=6, twoabs=6, hard=6, bad=0, dir=0, notfound=0)
            # `rel' and `two' are the same text
            names['rel'] = names['two'] = ('./libone.so', ('d1', 'd2'))
        self.dirs, self.names = dirs, names
        self.res = []
        for d in dirs:
            m = {}
            for k, (text, where) in names.items():
                f = res[k]
                if where is not None and d not in ([where] if isinstance(where, str) else where):
                    f = 0
                if rich and k in ('rel', 'two') and f:
                    f = 1 if d == 'd1' else 6
                if k == 'rs' and f:
                    f = 7 if d == 'd1' else 8
                m[k] = f
            self.res.append(m)
        self.file = os.path.join(base, 'world.txt')
        with open(self.file, 'w') as f:
            for k, (text, _) in names.items():
                f.write(f'name {k} {text}\n')
            for k, d in enumerate(dirs, 1):
                f.write(f'dir {k} {w}/{d}\n')
            for k, (p, _, _) in enumerate(self.files, 1):
                f.write(f'file {k} {p}\n')

    def init(self, kinds, deflib):
        return '- init ' + json.dumps({'op': 'init', 'kind': kinds, 'deflib': deflib,
                                       'files': [{'id': i, 'extra': x} for _, i, x in self.files],
                                       'text': {n: t for n, (t, _) in self.names.items()}, 'res': [[{'n': n, 'f': f} for n, f in m.items()] for m in self.res]}, separators=(',', ':'))


# kind -> (format, extension, unit, flags with @U@)
UNITS = {'c': ('c', 'c', C_TU, []), 'c++': ('c++', 'cpp', CXX_TU, []), 'minimal': ('minimal', 'c', MIN_TU, []),
         'minimal++': ('minimal-c++', 'cpp', MINXX_TU, []), 'auto': ('c', 'c', AUTO_TU, ['-D@U@_ENABLE_AUTOLOAD']),
         'lazy': ('c', 'c', AUTO_TU, ['-D@U@_ENABLE_AUTOLOAD', '-D@U@_ENABLE_AUTOLOAD_LAZY']), 'plugin': ('plugin', 'c', PLUG_TU, []), 'auto++': ('c++', 'cpp', AUTOXX_TU, ['-D@U@_ENABLE_AUTOLOAD']),
         'lazy++': ('c++', 'cpp', AUTOXX_TU, ['-D@U@_ENABLE_AUTOLOAD', '-D@U@_ENABLE_AUTOLOAD_LAZY'])}
KIND = {'minimal++': 'minimal', 'lazy': 'auto', 'auto++': 'auto', 'lazy++': 'auto', 'plugin': 'plugin'}


def build(tool, base, units, deflib, cc=('gcc', 'g++'), opt='-O1', separate=False):
    """one program of the given units; returns (exe, kinds)"""
    w = os.path.join(base, 'prog')
    os.makedirs(w)
    with open(w + '/in.h', 'w') as f:
        f.write(INPUT)
    with open(w + '/api.h', 'w') as f:
        f.write(API_H)
    objs, apis, kinds = [], [], []
    for k, u in enumerate(units):
        fmt, ext, text, flags = UNITS[u]
        p, U, v = f'in{k}', f'IN{k}', f'api{k}'
        h = f'g{k}.' + ('hpp' if ext == 'cpp' else 'h')
        sep = separate and k % 2 == 1 and u in ('c', 'c++', 'plugin', 'auto', 'lazy', 'auto++', 'lazy++')
        r = c.gen(tool, ['-format=' + fmt, '-prefix=' + p, '-out=' + h] + (['-separate'] if sep else []) + ([f'-library={deflib}'] if KIND.get(u) == 'auto' or u == 'auto' else []) + ['in.h'], cwd=w)
        if r.returncode:
            raise c.BuildFailure('gendlopen failed: ' + r.stderr.decode('utf8', 'replace'))
        with open(f'{w}/u{k}.{ext}', 'w') as f:
            f.write(text.format(h=h, p=p, U=U, v=v, ext=''))
        c.compile_c(f'u{k}.o', [f'u{k}.{ext}'], ['-c', '-w', opt, '-I.'] + [x.replace('@U@', U) for x in flags], cc=cc[ext == 'cpp'], cwd=w)
        objs.append(f'u{k}.o')
        if sep:
            c.compile_c(f'b{k}.o', [f'g{k}.{ext}'], ['-c', '-w', opt, '-I.'] + [x.replace('@U@', U) for x in flags], cc=cc[ext == 'cpp'], cwd=w)
            objs.append(f'b{k}.o')
        if u == 'plugin':
            apis += [v + '0', v + '1']
            kinds += ['plugin', 'plugin']
        else:
            apis.append(v)
            kinds.append(KIND.get(u, u))
    with open(w + '/main.c', 'w') as f:
        f.write(MAIN.replace('@EXTERNS@', '\n'.join(f'extern const struct api {a};' for a in apis))
                .replace('@APIS@', ', '.join('&' + a for a in apis)).replace('@KINDS@', ', '.join(f'"{k}"' for k in kinds)))
    c.compile_c('main.o', ['main.c'], ['-c', '-w', '-I.'] + (['-DPLUG'] if 'plugin' in units else []), cc='gcc', cwd=w)
    exe = w + '/prog'
    c.compile_c(exe, ['main.o'] + objs, ['-ldl'], cc='g++', cwd=w)
    return exe, kinds


def execute(exe, world, runs):
    d = os.path.join(world.base, 'log')
    os.makedirs(d, exist_ok=True)

    def one(run):
        p = os.path.join(d, f'{random.getrandbits(60):x}')
        env = {**os.environ, 'LD_LIBRARY_PATH': world.w + '/sp:rsp', 'LC_ALL': 'C'}
        try:
            r = c.run([exe, p, world.file], input=('\n'.join(run) + '\n- exit\n').encode(), timeout=120, env=env, cwd=world.w + '/' + world.dirs[0])
            rc, err = r.returncode, r.stderr.decode('utf8', 'replace')
        except c.subprocess.TimeoutExpired:
            rc, err = 'timeout', ''
        try:
            with open(p) as f:
                lines = f.read().splitlines()
            os.unlink(p)
        except OSError:
            lines = []
        ok = rc == 0 and lines and lines[-1] == '{"end":true}' and len(lines) == len(run) + 1
        return run, lines[:-1] if ok else [x for x in lines if x.endswith('}')], rc if not ok else 0, err, ok
    return c.pmap(one, runs)


def rand_run(rng, world, kinds, length):
    run = []
    listed = False
    for _ in range(length):
        i = rng.randint(1, len(kinds))
        k = kinds[i - 1]
        nm = list(world.names)
        good = [n for n in nm if any(m[n] for m in world.res)]
        n = rng.choice(good if rng.random() < .85 else nm)
        r = rng.random()
        if r < .12:
            run.append(f'- cd {rng.randint(1, len(world.dirs))}')
        elif k == 'plugin':
            first = i if i == 1 or kinds[i - 2] != 'plugin' else i - 1
            if r < .4:
                if listed:
                    run.append(f'- release {first}')
                run.append(f'- plugins {first} {n} {rng.choice(good)}')
                listed = True
            elif r < .5 and listed:
                run.append(f'- release {first}')
                listed = False
            else:
                run.append(f'- call {i} {rng.randint(1, 3)}')
        elif k == 'minimal':
            run.append(f'- load {i} {n} 0' if r < .4 else f'- free {i}' if r < .5 else f'- call {i} {rng.randint(1, 3)}')
        elif k == 'auto':
            run.append(f'- {rng.choice(["free", "force", "path"])} {i}' if r < .4 else f'- call {i} {rng.randint(1, 3)}')
        else:
            run.append(f'- load {i} {n} {int(rng.random() < .25)}' if r < .35 else f'- {rng.choice(["free", "force"])} {i}' if r < .47
                       else f'- all {i}' if r < .6 else f'- sym {i} {rng.randint(1, 3)}' if r < .68 else f'- path {i}' if r < .82
                       else f'- call {i} {rng.randint(1, 3)}')
    return run
