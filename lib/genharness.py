"""Generate C / C++ harness programs around the headers the tool emits."""

def cstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def protos(syms):
    """input text for the tool; syms = [(name, 'f'|'o')]"""
    out = []
    for n, k in syms:
        out.append(f"int {n}(int x);" if k == 'f' else f"int {n};")
    return "\n".join(out) + "\n"


def enum_order(syms):
    """order of the enumeration: functions first, then objects (documented output order)"""
    return [s for s in syms if s[1] == 'f'] + [s for s in syms if s[1] == 'o']


def common_tables(syms):
    o = []
    o.append("extern const char *const fk_names[]; extern const int fk_nsym;\n"
             "const char *const fk_names[] = {" + ", ".join(cstr(n) for n, _ in syms) + "};")
    o.append(f"const int fk_nsym = {len(syms)};")
    for lib in range(4):
        for i, (n, k) in enumerate(syms):
            if k == 'f':
                o.append(f"static int L{lib}_{i}(int x) {{ return {lib}*1000000 + {i}*1000 + x; }}")
            else:
                o.append(f"static int L{lib}_{i} = {lib}*1000000 + {i}*1000;")
    for lib in range(4):
        cells = []
        for i, (n, k) in enumerate(syms):
            cells.append(("(void *)L%d_%d" if k == 'f' else "(void *)&L%d_%d") % (lib, i))
        o.append(f"static void *const tab{lib}[] = {{ {', '.join(cells)} }};")
    o.append("static void *const *const tabs[] = { tab0, tab1, tab2, tab3 };")
    o.append("void *fk_address(int lib, int s) { return tabs[lib][s]; }")
    return "\n".join(o)


def accessors(syms, rawpfx):
    o = ["static void *rawptr(int i) { switch (i) {"]
    for i, (n, k) in enumerate(syms):
        o.append(f"case {i}: return (void *){rawpfx}_RAWPTR_{n};")
    o.append("} return NULL; }")
    o.append("static int use(int i, int x) { switch (i) {")
    for i, (n, k) in enumerate(syms):
        o.append(f"case {i}: return {n}(x);" if k == 'f' else f"case {i}: return x + {n};")
    o.append("} return -1; }")
    o.append("static int loadnum(int i) { switch (i) {")
    for i, (n, k) in enumerate(syms):
        o.append(f"case {i}: return {rawpfx}_LOAD_{n};")
    o.append("} return -1; }")
    return "\n".join(o)


MAIN = r'''
static char linebuf[1 << 20];
static char *tok[16];
static int ntok;

static void split(char *l)
{
    ntok = 0;
    for (char *t = strtok(l, " \n"); t && ntok < 16; t = strtok(NULL, " \n")) tok[ntok++] = t;
}

/* the symbol a name stands for, and the text an error about it must contain */
static void named(const char *s)
{
    int i, k = -1;
    for (i = 0; s && i < fk_nsym; i++) if (!strcmp(s, fk_names[i])) k = i;
    fk_addstr("name", s);
    fk_addstr("what", s ? s : "");
    fk_add(",\"s\":%d", k);
}

#ifdef FK_WIN
# define WINEV(on) fk_win_event(on)
#else
# define WINEV(on) ((void)0)
#endif
static void platform(void)
{
#ifdef FK_WIN
    fk_add(",\"win\":true,\"cap\":32768,\"src\":\"info\"");
#elif defined(_WIN32)
    fk_add(",\"win\":false,\"cap\":32768,\"src\":\"info+addr\"");
#elif defined(_AIX)
    fk_add(",\"win\":false,\"cap\":8192,\"src\":\"query\"");
#elif defined(FK_OTHER)
    fk_add(",\"win\":false,\"cap\":8192,\"src\":\"addr\"");
#else
    fk_add(",\"win\":false,\"cap\":8192,\"src\":\"info+addr\"");
#endif
}

static void final_dump(void) { WINEV(0); fk_calls_only("exit"); }
#ifdef FK_PLATFORM  /* no process map to look up relative names in */
static const char *exe(void) { return ""; }
#else
static const char *exe(void) { static char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n < 0) n = 0; b[n] = 0; return b; }
#endif
'''


def c_harness(syms, header, pfx="gdo", include_cxx=False):
    U = pfx.upper()
    body = r'''
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include "fakedl.h"
#include "@HEADER@"
#ifdef __cplusplus
extern "C" {
#endif
@TABLES@
#ifdef __cplusplus
}
#endif
@ACC@
@MAIN@
#if defined(FK_WIN) && defined(_UNICODE)
# define WIDE(s) fk_wide(s)
# define NARROW(s) fk_narrow(s)
#else
# define WIDE(s) (s)
# define NARROW(s) ((s) ? strdup(s) : NULL)
#endif
static void post(void)
{
    int i;
    WINEV(0);
    fk_add(",\"loaded\":%s,\"all\":%s,\"no\":%s,\"any\":%s",
        @p@_lib_is_loaded() ? "true" : "false", @p@_all_symbols_loaded() ? "true" : "false",
        @p@_no_symbols_loaded() ? "true" : "false", @p@_any_symbol_loaded() ? "true" : "false");
    fk_add(",\"ptr\":[");
    for (i = 0; i < fk_nsym; i++) fk_add("%s%d", i ? "," : "", fk_ptrid(rawptr(i)));
    fk_add("]");
    char *copy = NARROW(@p@_last_error());
    fk_add(",\"objs\":[{\"id\":0");
    fk_addstr("err", copy);
    /* asking again must give the same answer */
    char *e = NARROW(@p@_last_error());
    fk_add(",\"stable\":%s}]", (e && copy && !strcmp(e, copy)) ? "true" : "false");
    free(copy); free(e);
}

#define RET(x) fk_add(",\"ret\":%s", (x) ? "true" : "false")

int main(void)
{
    fk_real_atexit(final_dump);
    fk_begin("\"op\":\"init\"");
    { char *d = NARROW(@U@_DEFAULT_LIB); fk_addstr("deflib", d); free(d); }
    fk_add(",\"n\":%d,\"defflags\":%d,\"cxx\":false", fk_nsym, (int)(@U@_DEFAULT_FLAGS));
    platform();
#if defined(FK_WIN) && (defined(_UNICODE) || defined(@U@_CONVERT_FILENAME))
    fk_add(",\"wd\":\"W\"");
#else
    fk_add(",\"wd\":\"A\"");
#endif
    fk_addstr("exe", exe());
    fk_addstr("prefix", @U@_COMMON_PREFIX);
    fk_names_json();
    post();
    fk_end();

    while (fgets(linebuf, sizeof linebuf, stdin)) {
        split(linebuf);
        if (ntok < 2) continue;
        fk_env(tok[0]);
        const char *op = tok[1];
        if (!strcmp(op, "exit")) exit(0);
        fk_begin("\"op\":\"%s\",\"o\":0", op);
        WINEV(1);
        if (!strcmp(op, "load")) { RET(@p@_load_lib()); }
        else if (!strcmp(op, "load_syms")) { RET(@p@_load_lib_and_symbols()); }
        else if (!strcmp(op, "load_name")) { char *s = fk_str(tok[2]); fk_addstr("name", s); RET(@p@_load_lib_name(WIDE(s))); }
        else if (!strcmp(op, "load_name_syms")) { char *s = fk_str(tok[2]); fk_addstr("name", s); RET(@p@_load_lib_name_and_symbols(WIDE(s))); }
        else if (!strcmp(op, "load_args")) { char *s = fk_str(tok[2]); fk_addstr("name", s);
            fk_add(",\"flags\":%d,\"ns\":%s", atoi(tok[3]), atoi(tok[4]) ? "true" : "false");
            RET(@p@_load_lib_args(WIDE(s), atoi(tok[3]), atoi(tok[4]) != 0)); }
        else if (!strcmp(op, "free")) { RET(@p@_free_lib()); }
        else if (!strcmp(op, "force")) { @p@_force_free_lib(); RET(1); }
        else if (!strcmp(op, "autorel")) { RET(@p@_enable_autorelease()); }
        else if (!strcmp(op, "load_all")) { RET(@p@_load_all_symbols()); }
        else if (!strcmp(op, "load_num")) { int s = atoi(tok[2]); fk_add(",\"s\":%d", s); RET(@p@_load_symbol(loadnum(s))); }
        else if (!strcmp(op, "load_rawnum")) { int n = atoi(tok[2]), s = -1, i; fk_add(",\"n\":%d", n);
            for (i = 0; i < fk_nsym; i++) if (loadnum(i) == n) s = i;
            fk_add(",\"what\":\"%d\",\"s\":%d", n, s); RET(@p@_load_symbol(n)); }
        else if (!strcmp(op, "load_last")) { fk_add(",\"what\":\"%d\",\"s\":-1", (int)@U@_ENUM_LAST); RET(@p@_load_symbol(@U@_ENUM_LAST)); }
        else if (!strcmp(op, "load_sym")) { char *s = fk_str(tok[2]); named(s); RET(@p@_load_symbol_name(s)); }
        else if (!strcmp(op, "path")) { char *s = strdup("");
            char *r = NARROW(@p@_library_path()); if (r) s = r; fk_add(",\"null\":%s", r ? "false" : "true"); fk_addstr("path", s); RET(r != NULL); }
        else if (!strcmp(op, "use")) { int s = atoi(tok[2]); int r = -1; void *p = rawptr(s);
            if (p) r = use(s, 7); fk_add(",\"s\":%d,\"val\":%d", s, r); RET(p != NULL); }
        else if (!strcmp(op, "query")) { RET(1); }
        
        else { fprintf(stderr, "bad op %s\n", op); _Exit(97); }
        post();
        fk_end();
    }
    exit(0);
}
'''
    return (body.replace('@HEADER@', header).replace('@TABLES@', common_tables(syms))
            .replace('@ACC@', accessors(syms, U)).replace('@MAIN@', MAIN)
            .replace('@p@', pfx).replace('@U@', U))


def cxx_harness(syms, header, pfx="gdo"):
    U = pfx.upper()
    body = r'''
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <map>
#include <string>
#include <unistd.h>
#include "fakedl.h"
#include "@HEADER@"
extern "C" {
@TABLES@
}
@ACC@
@MAIN@
static std::map<int, @p@::dl *> objs;

/* the characters of a string, including any that do not belong there */
static std::string text(const std::string &s) { std::string r; for (char c : s) if (c) r += c; else r += "<NUL>"; return r; }
#ifdef FK_WIN
static std::wstring widen(char *t) { char *s = fk_str(t); wchar_t *w = fk_wide(s ? s : ""); std::wstring r = w; free(s); free(w); return r; }
static std::string unwide(const std::wstring &w) { std::wstring x; for (wchar_t c : w) if (c) x += c; else x += L"<NUL>";
    char *s = fk_narrow(x.c_str()); std::string r = s; free(s); return r; }
static int wquery = -1;
#endif

static void post(void)
{
    WINEV(0);
    fk_add(",\"loaded\":%s", @p@::dl::lib_loaded() ? "true" : "false");
    bool first = true;
    fk_add(",\"ptr\":[");
    for (int i = 0; i < fk_nsym; i++) fk_add("%s%d", i ? "," : "", fk_ptrid(rawptr(i)));
    fk_add("],\"objs\":[");
    int all = -1, no = -1, any = -1; bool agree = true;
    for (auto &e : objs) {
#ifdef FK_WIN
        @p@::dl &d = *e.second;
#else
        const @p@::dl &d = *e.second;
#endif
        fk_add("%s{\"id\":%d", first ? "" : ",", e.first);
        first = false;
#ifdef FK_WIN
        {
            std::string a = d.error();
            std::wstring w = d.error_w();
            fk_addstr("err", a.c_str());
            fk_add(",\"stable\":%s", a == d.error() ? "true" : "false");
            fk_add(",\"wstable\":%s", w == d.error_w() && unwide(w) == a ? "true" : "false");
            fk_addstr("fnw", wquery == e.first ? unwide(d.filename_w()).c_str() : "");
        }
#else
        fk_addstr("err", d.error().c_str());
        fk_add(",\"stable\":true");
#endif
        fk_addstr("fn", text(d.filename()).c_str());
        fk_add(",\"fl\":%d,\"dt\":%s}", d.flags(), d.free_lib_in_dtor() ? "true" : "false");
        int a = d.all_symbols_loaded(), n = d.no_symbols_loaded(), y = d.any_symbol_loaded();
        if (all >= 0 && (all != a || no != n || any != y)) agree = false;
        all = a; no = n; any = y;
    }
    fk_add("]");
    if (all < 0) { @p@::dl t; t.free_lib_in_dtor(false); all = t.all_symbols_loaded(); no = t.no_symbols_loaded(); any = t.any_symbol_loaded(); }
    fk_add(",\"all\":%s,\"no\":%s,\"any\":%s,\"agree\":%s", all ? "true" : "false", no ? "true" : "false", any ? "true" : "false", agree ? "true" : "false");
}

static std::string cxxstr(char *t) { char *s = fk_str(t); std::string r = s ? s : ""; free(s); return r; }
#define RET(x) fk_add(",\"ret\":%s", (x) ? "true" : "false")

int main(void)
{
    fk_real_atexit(final_dump);
    fk_begin("\"op\":\"init\",\"cxx\":true,\"n\":%d,\"deflib\":\"\",\"defflags\":%d", fk_nsym, (int)(@U@_DEFAULT_FLAGS));
    platform();
    fk_add(",\"wd\":\"A\"");
    fk_addstr("exe", exe());
    fk_addstr("prefix", @U@_COMMON_PREFIX);
    fk_names_json();
    { @p@::dl t; t.free_lib_in_dtor(false); fk_addstr("noerr", t.error().c_str()); }
    post();
    fk_end();

    while (fgets(linebuf, sizeof linebuf, stdin)) {
        split(linebuf);
        if (ntok < 2) continue;
        fk_env(tok[0]);
        std::string op = tok[1];
        if (op == "exit") exit(0);
        if (ntok < 3) continue;
        int o = atoi(tok[2]);
        @p@::dl *d = objs.count(o) ? objs[o] : nullptr;
        fk_begin("\"op\":\"%s\",\"o\":%d", op.c_str(), o);
        WINEV(1);
#ifdef FK_WIN
        wquery = -1;
#endif
        if (op == "new0") { objs[o] = new @p@::dl(); RET(1); }
        else if (op == "new1") { std::string s = cxxstr(tok[3]); fk_addstr("name", s.c_str()); objs[o] = new @p@::dl(s); RET(1); }
        else if (op == "new") { std::string s = cxxstr(tok[3]); fk_addstr("name", s.c_str());
            fk_add(",\"flags\":%d,\"ns\":%s", atoi(tok[4]), atoi(tok[5]) ? "true" : "false");
            objs[o] = new @p@::dl(s, atoi(tok[4]), atoi(tok[5]) != 0); RET(1); }
        else if (op == "del") { objs.erase(o); delete d; RET(1); }
        else if (op == "load") { RET(d->load()); }
        else if (op == "load_syms") { RET(d->load_lib_and_symbols()); }
        else if (op == "load_name") { std::string s = cxxstr(tok[3]); fk_addstr("name", s.c_str()); RET(d->load(s)); }
        else if (op == "load_args") { std::string s = cxxstr(tok[3]); fk_addstr("name", s.c_str());
            fk_add(",\"flags\":%d,\"ns\":%s", atoi(tok[4]), atoi(tok[5]) ? "true" : "false");
            RET(d->load(s, atoi(tok[4]), atoi(tok[5]) != 0)); }
        else if (op == "free") { RET(d->free()); }
        else if (op == "force") { RET(d->free(true)); }
        else if (op == "setdtor") { int b = atoi(tok[3]); fk_add(",\"b\":%s", b ? "true" : "false"); d->free_lib_in_dtor(b != 0); RET(1); }
        else if (op == "load_all") { RET(d->load_all_symbols()); }
        else if (op == "load_num") { int s = atoi(tok[3]); fk_add(",\"s\":%d", s); RET(d->load_symbol(loadnum(s))); }
        else if (op == "load_rawnum") { int n = atoi(tok[3]), s = -1; fk_add(",\"n\":%d", n);
            for (int i = 0; i < fk_nsym; i++) if (loadnum(i) == n) s = i;
            fk_add(",\"what\":\"%d\",\"s\":%d", n, s); RET(d->load_symbol(n)); }
        else if (op == "load_last") { fk_add(",\"what\":\"%d\",\"s\":-1", (int)@U@_ENUM_LAST); RET(d->load_symbol((int)@U@_ENUM_LAST)); }
        else if (op == "load_sym") { char *s = fk_str(tok[3]); named(s); RET(d->load_symbol(static_cast<const char *>(s))); }
        else if (op == "path") { std::string r = d->library_path(); fk_add(",\"null\":%s", r.empty() ? "true" : "false"); fk_addstr("path", r.c_str()); RET(!r.empty()); }
        else if (op == "use") { int s = atoi(tok[3]); int r = -1; void *p = rawptr(s);
            if (p) r = use(s, 7);
            fk_add(",\"s\":%d,\"val\":%d", s, r); RET(p != NULL); }
        else if (op == "query") { RET(1); }
#ifdef FK_WIN
        else if (op == "wquery") { wquery = o; RET(1); }
        else if (op == "wpath") { std::wstring r = d->library_path_w(); fk_add(",\"null\":%s", r.empty() ? "true" : "false");
            fk_addstr("path", unwide(r).c_str()); RET(!r.empty()); }
        else if (op == "new_wide") { std::wstring s = widen(tok[3]); fk_addstr("name", unwide(s).c_str()); fk_add(",\"flags\":%d", atoi(tok[4]));
            objs[o] = new @p@::dl(s, atoi(tok[4])); RET(1); }
        else if (op == "load_wide") { std::wstring s = widen(tok[3]); fk_addstr("name", unwide(s).c_str()); fk_add(",\"flags\":%d", atoi(tok[4]));
            RET(d->load(s, atoi(tok[4]))); }
        else if (op == "new_conv") { std::string s = cxxstr(tok[3]); fk_addstr("name", s.c_str());
            fk_add(",\"flags\":%d,\"b\":%s", atoi(tok[4]), atoi(tok[5]) ? "true" : "false");
            objs[o] = new @p@::dl(atoi(tok[5]) != 0, s, atoi(tok[4])); RET(1); }
        else if (op == "load_conv") { std::string s = cxxstr(tok[3]); fk_addstr("name", s.c_str());
            fk_add(",\"flags\":%d,\"b\":%s", atoi(tok[4]), atoi(tok[5]) ? "true" : "false");
            RET(d->load(atoi(tok[5]) != 0, s, atoi(tok[4]))); }
#endif
        
        else { fprintf(stderr, "bad op %s\n", op.c_str()); _Exit(97); }
        post();
        fk_end();
    }
    exit(0);
}
'''
    return (body.replace('@HEADER@', header).replace('@TABLES@', common_tables(syms))
            .replace('@ACC@', accessors(syms, U)).replace('@MAIN@', MAIN)
            .replace('@p@', pfx).replace('@U@', U))
