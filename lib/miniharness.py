"""Programs around the minimal and plugin headers."""
from genharness import common_tables, MAIN


def ptrs(syms):
    o = ['static void *ptr(int i) { switch (i) {']
    for i, (n, k) in enumerate(syms):
        o.append(f'case {i}: return (void *){n};' if k == 'f' else f'case {i}: return (void *)&({n});')
    o.append('} return NULL; }\nstatic int use(int i, int x) { switch (i) {')
    for i, (n, k) in enumerate(syms):
        o.append(f'case {i}: return {n}(x);' if k == 'f' else f'case {i}: return x + {n};')
    o.append('} return -1; }')
    return '\n'.join(o)


def minimal(syms, header, cxx, pfx='gdo'):
    load = ('''
            const char *kind = "none"; std::string err;
            try { @p@::load_library_and_symbols(s); }
            catch (const @p@::LibraryError &e) { const std::runtime_error &r = e; kind = "LibraryError"; err = r.what(); }
            catch (const @p@::SymbolError &e) { const std::runtime_error &r = e; kind = "SymbolError"; err = r.what(); }
            catch (...) { kind = "other"; }
            fk_addstr("kind", kind); fk_addstr("err", err.c_str()); RET(!strcmp(kind, "none"));
''' if cxx else '''
            const char *e = @p@_load_library_and_symbols(s);
            fk_addstr("kind", e ? "error" : "none"); fk_addstr("err", e ? e : ""); RET(e == NULL);
''')
    free = '@p@::free_library();' if cxx else '@p@_free_library();'
    body = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include "fakedl.h"
#include "@HEADER@"
#ifdef __cplusplus
extern "C" {
#endif
@TABLES@
#ifdef __cplusplus
}
#endif
@MAIN@
@PTRS@
#define RET(x) fk_add(",\"ret\":%s", (x) ? "true" : "false")
static void post(void)
{
    WINEV(0);
    fk_add(",\"ptr\":[");
    for (int i = 0; i < fk_nsym; i++) fk_add("%s%d", i ? "," : "", fk_ptrid(ptr(i)));
    fk_add("]");
}
int main(void)
{
    fk_real_atexit(final_dump);
    (void)named; (void)exe; (void)platform;
    fk_begin("\"op\":\"init\",\"cxx\":@CXX@,\"n\":%d", fk_nsym);
    fk_names_json();
    post();
    fk_end();
    while (fgets(linebuf, sizeof linebuf, stdin)) {
        split(linebuf);
        if (ntok < 2) continue;
        fk_env(tok[0]);
        const char *op = tok[1];
        if (!strcmp(op, "exit")) exit(0);
        fk_begin("\"op\":\"%s\"", op);
        WINEV(1);
        if (!strcmp(op, "load")) {
            char *s = fk_str(tok[2]);
            fk_addstr("name", s);
@LOAD@
            if (s) memset(s, 'Z', strlen(s));
            free(s);
        }
        else if (!strcmp(op, "free")) { @FREE@ RET(1); }
        else if (!strcmp(op, "use")) { int s = atoi(tok[2]), r = -1; void *p = ptr(s);
            if (p) r = use(s, 7);
            fk_add(",\"s\":%d,\"val\":%d", s, r); RET(p != NULL); }
        else { fprintf(stderr, "bad op\n"); _Exit(97); }
        post();
        fk_end();
    }
    exit(0);
}
'''
    return (body.replace('@LOAD@', load).replace('@FREE@', free).replace('@HEADER@', header).replace('@TABLES@', common_tables(syms))
            .replace('@MAIN@', MAIN).replace('@PTRS@', ptrs(syms)).replace('@CXX@', 'true' if cxx else 'false').replace('@p@', pfx).replace('@U@', pfx.upper()))


def plugin(syms, header, pfx='gdo'):
    acc = '\n'.join(f'case {i}: return {"(void *)" if k == "f" else ""}h->ptr.{n};' for i, (n, k) in enumerate(syms))
    body = r'''
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include "fakedl.h"
#ifdef __cplusplus
extern "C" {
#endif
@TABLES@
#ifdef __cplusplus
}
#endif
@MAIN@
/* the program's own memory is not counted */
static void *own_alloc(size_t n) { return calloc(1, n); }
#define malloc  fk_malloc
#define calloc  fk_calloc
#define realloc fk_realloc
#undef strdup
#define strdup  fk_strdup
#undef wcsdup
#define wcsdup  fk_wcsdup
#define free    fk_free
#include "@HEADER@"
#if defined(FK_WIN) && defined(_UNICODE)
# define WIDE(s) fk_wide(s)
# define NARROW(s) fk_narrow(s)
# define CHAR wchar_t
# define ONE L"lib"
#else
# define WIDE(s) (s)
# define NARROW(s) (s)
# define CHAR char
# define ONE "lib"
#endif
#define RET(x) fk_add(",\"ret\":%s", (x) ? "true" : "false")
static @p@_plugin_t *lists[64];
static void *sym(@p@_handle_t *h, int i) { switch (i) {
@ACC@
} return NULL; }

static void post(void)
{
    WINEV(0);
    fk_add(",\"lists\":[");
    for (int k = 0, first = 1; k < 64; k++) if (lists[k]) {
        fk_add("%s{\"id\":%d,\"num\":%d,\"e\":[", first ? "" : ",", k, (int)lists[k]->num);
        first = 0;
        for (size_t j = 0; j < lists[k]->num; j++) {
            @p@_handle_t *h = &lists[k]->list[j];
            fk_add("%s{\"h\":%d", j ? "," : "", fk_handle(h->handle));
            fk_addstr("name", h->filename ? NARROW(h->filename) : "");
            fk_add(",\"null\":%s,\"ptr\":[", h->filename ? "false" : "true");
            for (int i = 0; i < fk_nsym; i++) fk_add("%s%d", i ? "," : "", fk_ptrid(sym(h, i)));
            fk_add("]}");
        }
        fk_add("]}");
    }
    fk_add("],\"live\":%d,\"badfree\":%d", fk_live(), fk_badfree());
}
int main(void)
{
    fk_real_atexit(final_dump);
    (void)named; (void)exe; (void)platform;
    fk_begin("\"op\":\"init\",\"n\":%d", fk_nsym);
    fk_names_json();
    post();
    fk_end();
    while (fgets(linebuf, sizeof linebuf, stdin)) {
        split(linebuf);
        if (ntok < 2) continue;
        fk_env(tok[0]);
        const char *op = tok[1];
        if (!strcmp(op, "exit")) exit(0);
        int id = atoi(tok[2]);
        fk_begin("\"op\":\"%s\",\"id\":%d", op, id);
        WINEV(1);
        if (!strcmp(op, "load")) {      /* load ID NAME,NAME,... */
            char *names[256]; size_t n = 0;
            for (char *t = strtok(tok[3], ","); t && n < 256; t = strtok(NULL, ",")) names[n++] = fk_str(t);
            const CHAR **arr = (const CHAR **)own_alloc((n + 1) * sizeof *arr);
            fk_add(",\"files\":[");
            for (size_t k = 0; k < n; k++) { arr[k] = WIDE(names[k]);
                /* equal names may well be one string */
                if (id % 2 == 0) for (size_t j = 0; j < k; j++) if (names[j] && names[k] && !strcmp(names[j], names[k])) { arr[k] = arr[j]; break; }
                fk_add("%s{\"null\":%s", k ? "," : "", names[k] ? "false" : "true"); fk_addstr("name", names[k] ? names[k] : ""); fk_add("}"); }
            fk_add("]");
            size_t wlens[256];
            for (size_t k = 0; k < n; k++) wlens[k] = names[k] ? strlen(names[k]) : 0;
            fk_track(1);
            lists[id] = @p@_load_plugins(arr, n);
            fk_track(0);
            /* the caller's array is no longer needed */
            for (size_t k = 0; k < n; k++) { if (names[k]) { size_t z = wlens[k]; memset((void *)arr[k], 'Z', z * sizeof(CHAR)); } arr[k] = NULL; }
            RET(lists[id] != NULL);
        }
        else if (!strcmp(op, "null")) {  /* null ID NUM: no array, or no entries */
            const CHAR *one = ONE; int n = atoi(tok[3]);
            fk_track(1);
            @p@_plugin_t *r = n < 0 ? @p@_load_plugins(&one, 0) : @p@_load_plugins(NULL, (size_t)n);
            fk_track(0);
            RET(r != NULL);
        }
        else if (!strcmp(op, "release")) { fk_track(1); @p@_release_plugins(lists[id]); fk_track(0); lists[id] = NULL; RET(1); }
        else { fprintf(stderr, "bad op\n"); _Exit(97); }
        post();
        fk_end();
    }
    exit(0);
}
'''
    return (body.replace('@HEADER@', header).replace('@TABLES@', common_tables(syms)).replace('@MAIN@', MAIN)
            .replace('@ACC@', acc).replace('@p@', pfx).replace('@U@', pfx.upper()))
