#define _GNU_SOURCE 1
#include "fakedl.h"
#include <dlfcn.h>
#include <link.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <wchar.h>

/* ------------------------------------------------------------------ log */
static FILE *logf_;
static char *members; static size_t memlen;
static char *calls;   static size_t calllen;
static FILE *fm, *fc;
static int ncalls;

FILE *fk_log(void)
{
    if (!logf_) {
        const char *p = getenv("FK_LOG");
        if (p) {
            /* a descriptor opened for append: forked children keep the order */
            int fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0600);
            logf_ = fd < 0 ? NULL : fdopen(fd, "w");
        } else {
            logf_ = stdout;
        }
        if (!logf_) { perror("FK_LOG"); _exit(99); }
    }
    return logf_;
}

static FILE *fcalls(void)
{
    if (!fc) { fc = open_memstream(&calls, &calllen); ncalls = 0; }
    return fc;
}

static FILE *fmem(void)
{
    if (!fm) { fm = open_memstream(&members, &memlen); }
    return fm;
}

void fk_puts_json(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c >= 0xc2 && c < 0xe0 && ((unsigned char)s[1] & 0xc0) == 0x80)
            { fprintf(f, "\\u%04x", (c & 0x1fu) << 6 | ((unsigned char)s[1] & 0x3fu)); s++; }
        else if (c >= 0xe0 && c < 0xf0 && ((unsigned char)s[1] & 0xc0) == 0x80 && ((unsigned char)s[2] & 0xc0) == 0x80)
            { fprintf(f, "\\u%04x", (c & 0xfu) << 12 | ((unsigned char)s[1] & 0x3fu) << 6 | ((unsigned char)s[2] & 0x3fu)); s += 2; }
        else if (c < 32 || c > 126) { fprintf(f, "?"); }
        else { fputc(c, f); }
    }
    fputc('"', f);
}

void fk_begin(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt); vfprintf(fmem(), fmt, ap); va_end(ap);
}

void fk_add(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt); vfprintf(fmem(), fmt, ap); va_end(ap);
}

void fk_addstr(const char *key, const char *s)
{
    fprintf(fmem(), ",\"%s\":", key);
    fk_puts_json(fmem(), s ? s : "<NULL>");
}

void fk_names_json(void)
{
    fprintf(fmem(), ",\"names\":[");
    for (int i = 0; i < fk_nsym; i++) { if (i) fputc(',', fm); fk_puts_json(fm, fk_names[i]); }
    fprintf(fm, "]");
}

void fk_end(void)
{
    FILE *l = fk_log();
    fmem(); fcalls();
    fclose(fm); fclose(fc);
    fm = fc = NULL;
#ifdef FK_INST
    extern int fk_inst;      /* which of several headers the event is about */
    fprintf(l, "{\"inst\":%d,%s,\"calls\":[%s]}\n", fk_inst, members, calls);
#else
    fprintf(l, "{%s,\"calls\":[%s]}\n", members, calls);
#endif
    fflush(l);
    free(members); free(calls);
    members = calls = NULL;
    ncalls = 0;
}

void fk_calls_only(const char *op)
{
    fk_begin("\"op\":\"%s\",\"o\":0,\"ret\":true", op);
    fk_end();
}

static FILE *call(const char *name)
{
    FILE *f = fcalls();
    fprintf(f, "%s{\"f\":\"%s\"", ncalls++ ? "," : "", name);
    return f;
}

static void cstr(FILE *f, const char *key, const char *s)
{
    fprintf(f, ",\"%s\":", key);
    fk_puts_json(f, s ? s : "<NULL>");
}

/* ------------------------------------------------------------ user code */
void fk_user(const char *fn, int s, int lib, const char *args, const char *res)
{
    FILE *f = call(fn);
    fprintf(f, ",\"s\":%d,\"lib\":%d", s, lib);
    cstr(f, "args", args);
    cstr(f, "res", res);
    fprintf(f, "}");
}

void fk_usermsg(int cb, const char *m)
{
    FILE *f = call("msg");
    fprintf(f, ",\"cb\":%d", cb);
    cstr(f, "m", m);
    fprintf(f, "}");
}

static int errfd = -1, capturing, event_open;
static off_t erroff;

static void addstderr(void)
{
    struct stat sb;
    char *b;
    size_t n = 0;
    fflush(stderr);
    if (errfd >= 0 && fstat(errfd, &sb) == 0 && sb.st_size > erroff) n = (size_t)(sb.st_size - erroff);
    b = calloc(1, n + 1);
    if (n && pread(errfd, b, n, erroff) < 0) *b = 0;
    erroff += (off_t)n;
    if (n && b[n - 1] == '\n') b[n - 1] = 0;
    fk_addstr("err", b);
    free(b);
}

void fk_open_event(void) { event_open = 1; }

void fk_close_event(const char *ended)
{
    event_open = 0;
    fk_add(",\"ended\":\"%s\"", ended);
    addstderr();
}

static void at_end(int status, void *arg)
{
    (void)arg;
    if (!capturing) return;
    if (event_open) { fk_close_event("exit"); fk_add(",\"status\":%d", status); fk_end(); }
    else { fk_begin("\"op\":\"exit\",\"o\":0,\"ret\":true,\"status\":%d", status); addstderr(); fk_end(); }
}

static void on_signal(int sig)
{
    if (event_open) { fk_close_event(sig == SIGABRT ? "abort" : "crash"); fk_add(",\"status\":%d", 128 + sig); fk_end(); }
    _exit(90);
}

/* registered before anything else, so that it runs after everything else */
__attribute__((constructor(101))) static void early(void) { on_exit(at_end, NULL); }

void fk_capture(void)
{
    capturing = 1;
    errfd = memfd_create("stderr", 0);
    if (errfd < 0 || dup2(errfd, 2) < 0) _exit(99);
    signal(SIGABRT, on_signal); signal(SIGSEGV, on_signal); signal(SIGBUS, on_signal);
    signal(SIGILL, on_signal); signal(SIGFPE, on_signal);
}

/* ---------------------------------------------------------- environment */
static struct {
    int open_fail, close_fail, info_fail, addr_fail, atexit_fail;
    int info_empty, addr_empty, rel, self, byname, conv;
    char msgkind;          /* 'u' unique, 'n' none (NULL), 'e' empty, 'l' long */
    int msglen, pathlen, addrlen;
    unsigned char miss[4096];
} env = { .msgkind = 'u' };

static int uniq;
static char *pending;         /* dlerror() state */

static const char *fail_msg(const char *what, const char *arg)
{
    if (env.msgkind == 'n') return "";   /* no message; an older one stays pending */
    free(pending); pending = NULL;
    switch (env.msgkind) {
    case 'e': pending = strdup(""); return "";
    case 'l':
        pending = malloc((size_t)env.msglen + 1);
        memset(pending, 'L', (size_t)env.msglen);
        pending[env.msglen] = 0;
        {
            char t[32]; int n = snprintf(t, sizeof t, "M%d:", ++uniq);
            if (n < env.msglen) memcpy(pending, t, (size_t)n);
        }
        return pending;
    default: {
            size_t n = strlen(arg ? arg : "") + 100;
            pending = malloc(n);
            snprintf(pending, n, "sys-%d: %s: %s", ++uniq, what, arg ? arg : "");
            return pending;
        }
    }
}

void fk_env(char *spec)
{
    memset(&env, 0, sizeof env);
    env.msgkind = 'u';
    for (char *t = strtok(spec, ","); t; t = strtok(NULL, ",")) {
        char *v = strchr(t, '=');
        if (v) *v++ = 0; else v = (char *)"";
        if (!strcmp(t, "open")) env.open_fail = 1;
        else if (!strcmp(t, "close")) env.close_fail = 1;
        else if (!strcmp(t, "info")) { if (*v == 'e') env.info_empty = 1; else env.info_fail = 1; }
        else if (!strcmp(t, "addr")) { if (*v == 'e') env.addr_empty = 1; else env.addr_fail = 1; }
        else if (!strcmp(t, "atexit")) env.atexit_fail = 1;
        else if (!strcmp(t, "rel")) env.rel = 1;
        else if (!strcmp(t, "byname")) env.byname = 1;
        else if (!strcmp(t, "self")) env.self = 1;
        else if (!strcmp(t, "conv")) env.conv = *v ? atoi(v) : 1;
        else if (!strcmp(t, "plen")) env.pathlen = atoi(v);
        else if (!strcmp(t, "alen")) env.addrlen = atoi(v);
        else if (!strcmp(t, "msg")) { env.msgkind = *v; if (*v == 'l') env.msglen = atoi(v + 1); }
        else if (!strcmp(t, "miss")) {
            for (char *p = v; *p; ) { int i = (int)strtol(p, &p, 10); if (i >= 0 && i < 4096) env.miss[i] = 1; if (*p == '+') p++; }
        }
        else if (strcmp(t, "-")) { fprintf(stderr, "bad env %s\n", t); _exit(98); }
    }
}

char *fk_str(char *tok)
{
    if (!strcmp(tok, "<NULL>")) return NULL;
    if (!strcmp(tok, "<EMPTY>")) return strdup("");
    if (tok[0] == '@') {       /* @<char><len> */
        size_t n = (size_t)atoi(tok + 2);
        char *s = malloc(n + 1);
        memset(s, tok[1], n); s[n] = 0;
        return s;
    }
    char *s = strdup(tok), *w = s;
    for (char *r = s; *r; r++) {        /* %XX */
        unsigned x; int k = 0;
        if (*r == '%' && sscanf(r + 1, "%2x%n", &x, &k) == 1 && k == 2) { *w++ = (char)x; r += 2; }
        else *w++ = *r;
    }
    *w = 0;
    return s;
}

/* --------------------------------------------------------------- loader */
#define MAXH 100000
#define SLOTS 4096
static struct fkh { int id; int open; unsigned miss; } hs[SLOTS];
static int nopen;

static int hid(const void *h)
{
    if ((const char *)h >= (const char *)hs && (const char *)h < (const char *)(hs + SLOTS)) {
        size_t i = (size_t)((const struct fkh *)h - hs);
        return h == &hs[i] && hs[i].id ? hs[i].id : -2;
    }
    return h ? -1 : 0;
}

int fk_handle(const void *h) { return hid(h); }

static struct fkh *take(const char *name)
{
    struct fkh *h;
    if (env.open_fail || (env.byname && strstr(name, "-no"))) return NULL;
    nopen++;
    /* reuse slots, so that addresses of handles recur; the id tells opens apart */
    int slot = env.byname ? nopen % SLOTS : nopen % 64, tries;
    for (tries = 0; hs[slot].open && tries < SLOTS; tries++) slot = (slot + 1) % SLOTS;
    h = &hs[slot];
    h->miss = 0;
    if (env.byname) for (const char *t = name; (t = strstr(t, "-m")); ) { t += 2; h->miss |= 1u << (atoi(t) % 32); }
    h->id = nopen;
    h->open = 1;
    return h;
}

static void *do_open(const char *name, int flags, bool ns)
{
    FILE *f;
    const char *m = "";
    int r = 0;
    struct fkh *h = take(name);

    if (h) r = h->id;
    else m = fail_msg("cannot open shared object", name);
    f = call("open");
    cstr(f, "name", name);
    fprintf(f, ",\"flags\":%d,\"ns\":%s,\"r\":%d", flags, ns ? "true" : "false", r);
    cstr(f, "m", m);
    fprintf(f, "}");
    return h;
}

void *dlopen(const char *name, int flags) { return do_open(name, flags, false); }
void *dlmopen(Lmid_t l, const char *name, int flags) { (void)l; return do_open(name, flags, true); }

static void *find(void *h, const char *name, int *num)
{
    int id = hid(h), i;
    for (i = 0; i < fk_nsym; i++) if (!strcmp(name, fk_names[i])) break;
    *num = i == fk_nsym ? -1 : i;
    if (id <= 0 || *num < 0 || env.miss[i] || ((struct fkh *)h)->miss >> (i % 32) & 1) return NULL;
    return fk_address(id % FK_LIBS, i);
}

void *dlsym(void *h, const char *name)
{
    FILE *f;
    const char *m = "";
    int id = hid(h), i;
    void *p = find(h, name, &i);

    if (!p) m = fail_msg("undefined symbol", name);
    f = call("sym");
    fprintf(f, ",\"h\":%d", id);
    cstr(f, "name", name);
    fprintf(f, ",\"s\":%d,\"r\":%d", i, fk_ptrid(p));
    cstr(f, "m", m);
    fprintf(f, "}");
    return p;
}

int dlclose(void *h)
{
    FILE *f;
    const char *m = "";
    int id = hid(h), r = 0;

    if (env.close_fail || id <= 0) { m = fail_msg("cannot close", ""); r = -1; }
    else ((struct fkh *)h)->open = 0;
    f = call("close");
    fprintf(f, ",\"h\":%d,\"r\":%d", id, r);
    cstr(f, "m", m);
    fprintf(f, "}");
    return r;
}

char *dlerror(void)
{
    static char *last;
    free(last);
    last = pending;
    pending = NULL;
    return last;
}

int dlinfo(void *h, int request, void *arg)
{
    static struct link_map lm;
    static char *name;
    const char *m = "";
    int id = hid(h), r = 0;
    FILE *f;
    (void)request;

    free(name); name = NULL;
    memset(&lm, 0, sizeof lm);
    if (env.info_fail || id <= 0) { m = fail_msg("invalid handle", ""); r = -1; }
    else if (env.info_empty) { name = strdup(""); }
    else {
        size_t n = env.pathlen ? (size_t)env.pathlen : 64;
        name = malloc(n + 64);
        int k = snprintf(name, n + 64, "%sinfo/lib-%d.so", env.rel || env.self ? "" : "/", id);
        if (env.pathlen) { while ((size_t)k < n) name[k++] = 'p'; name[n] = 0; }
        if (env.self) lm.l_addr = (ElfW(Addr))(uintptr_t)fk_ptrid & ~(ElfW(Addr))0xfff;
    }
    if (r == 0) { lm.l_name = name; *(struct link_map **)arg = &lm; }
    f = call("info");
    fprintf(f, ",\"h\":%d,\"r\":%d,\"self\":%s", id, r, env.self ? "true" : "false");
    cstr(f, "name", name ? name : "");
    cstr(f, "m", m);
    fprintf(f, "}");
    return r;
}

int dladdr(const void *p, Dl_info *info)
{
    static char *name;
    FILE *f;
    int r = 1;

    free(name); name = NULL;
    memset(info, 0, sizeof *info);
    if (env.addr_fail) r = 0;
    else if (env.addr_empty) name = strdup("");
    else {
        size_t n = env.addrlen ? (size_t)env.addrlen : 64;
        name = malloc(n + 64);
        int k = snprintf(name, n + 64, "/addr/lib-%d.so", nopen);
        if (env.addrlen) { while ((size_t)k < n) name[k++] = 'a'; name[n] = 0; }
    }
    info->dli_fname = name;
    f = call("addr");
    fprintf(f, ",\"p\":%d,\"r\":%d", fk_ptrid(p), r);
    cstr(f, "name", name ? name : "");
    fprintf(f, "}");
    return r;
}

/* linked with -Wl,--wrap=atexit */
extern int __real_atexit(void (*fn)(void));
extern int __wrap_atexit(void (*fn)(void));
int fk_real_atexit(void (*fn)(void)) { return __real_atexit(fn); }
int __wrap_atexit(void (*fn)(void))
{
    FILE *f;
    int r = env.atexit_fail ? 1 : __real_atexit(fn);
    f = call("atexit");
    fprintf(f, ",\"r\":%d}", r);
    return r;
}

int fk_ptrid(const void *p)
{
    if (!p) return 0;
    for (int l = 0; l < FK_LIBS; l++)
        for (int i = 0; i < fk_nsym; i++)
            if (p == fk_address(l, i)) return 1 + 1000 * l + i;
    return -1;
}

/* --------------------------------------------------------------- memory */
#define BLOCKS 65536
static struct { void *p; int freed; } blocks[BLOCKS];
static int nblocks, live_, badfree_, tracking;

void fk_track(int on) { tracking = on; }
int fk_live(void) { return live_; }
int fk_badfree(void) { return badfree_; }

static void *note(void *p)
{
    if (tracking && p && nblocks < BLOCKS) { blocks[nblocks].p = p; blocks[nblocks++].freed = 0; live_++; }
    return p;
}

void *fk_malloc(size_t n) { char *p = malloc(n + 1); if (p && tracking) memset(p, 0xA5, n + 1); return note(p); }
void *fk_calloc(size_t n, size_t m) { return note(calloc(n, m ? m : 1)); }
char *fk_strdup(const char *s) { return note(strdup(s)); }
wchar_t *fk_wcsdup(const wchar_t *s) { return note(wcsdup(s)); }
void *fk_realloc(void *p, size_t n)
{
    void *q = realloc(NULL, n);
    if (p) { memcpy(q, p, n); fk_free(p); }     /* may read too much; only used if the code uses realloc */
    return note(q);
}

/* blocks stay allocated, so that every address is given out once */
void fk_free(void *p)
{
    if (!p) return;
    for (int i = nblocks - 1; i >= 0; i--) if (blocks[i].p == p) {
        if (blocks[i].freed++) badfree_++; else live_--;
        return;
    }
    if (tracking) badfree_++;
}
