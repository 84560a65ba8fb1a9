/* Scripted Windows API (WinAPI part of the generated code), on top of fakedl.c */
#include "fakedl.c"
#include <errno.h>
#include <wchar.h>
#include "win/windows.h"

char *fk_narrow(const wchar_t *w);
wchar_t *fk_wide(const char *s);

/* ------------------------------------------------------------ conversions */
static size_t narrow_to(const wchar_t *w, char *out)
{
    size_t n = 0;
    char d;
    for (;; w++) {
        unsigned c = (unsigned)*w;
        char *p = out ? out + n : &d;
        if (!out) n += c < 0x80 ? 1 : c < 0x800 ? 2 : 3;
        else if (c < 0x80) { p[0] = (char)c; n++; }
        else if (c < 0x800) { p[0] = (char)(0xc0 | c >> 6); p[1] = (char)(0x80 | (c & 0x3f)); n += 2; }
        else { p[0] = (char)(0xe0 | (c >> 12 & 15)); p[1] = (char)(0x80 | (c >> 6 & 0x3f)); p[2] = (char)(0x80 | (c & 0x3f)); n += 3; }
        if (!c) return n;
    }
}

static size_t wide_to(const char *s, wchar_t *out)
{
    size_t n = 0;
    const unsigned char *p = (const unsigned char *)s;
    for (;;) {
        unsigned c = *p++;
        if (c >= 0xe0 && (p[0] & 0xc0) == 0x80 && (p[1] & 0xc0) == 0x80) { c = (c & 15) << 12 | (p[0] & 0x3fu) << 6 | (p[1] & 0x3fu); p += 2; }
        else if (c >= 0xc2 && (p[0] & 0xc0) == 0x80) { c = (c & 31) << 6 | (p[0] & 0x3fu); p++; }
        if (out) out[n] = (wchar_t)c;
        n++;
        if (!c) return n;
    }
}

char *fk_narrow(const wchar_t *w)
{
    if (!w) return NULL;
    char *s = malloc(narrow_to(w, NULL));
    narrow_to(w, s);
    return s;
}

wchar_t *fk_wide(const char *s)
{
    if (!s) return NULL;
    wchar_t *w = malloc(wide_to(s, NULL) * sizeof(wchar_t));
    wide_to(s, w);
    return w;
}

/* ---------------------------------------------------------------- errors */
static DWORD lasterr;
static int nlocal, quiet;
static struct { DWORD code; char *text; } *codes;
static int ncodes;

/* stale codes belong to no call of the generated code */
static const char *text_of(DWORD c)
{
    static char b[64];
    switch (c) {
    case 0: return "The operation completed successfully. ";
    case 2: return "The system cannot find the file specified. ";
    case 6: return "The handle is invalid. ";
    case 8: return "Not enough memory resources. ";
    case 87: return "The parameter is incorrect. ";
    case 122: return "The data area passed to a system call is too small. ";
    case 123: return "The filename is incorrect. ";
    case 126: return "The specified module could not be found. ";
    case 127: return "The specified procedure could not be found. ";
    case 183: return "Cannot create a file when that file already exists. ";
    case 1168: return "Element not found. ";
    }
    for (int i = ncodes - 1; i >= 0; i--) if (codes[i].code == c) return codes[i].text;
    snprintf(b, sizeof b, "stale-%u ", c);
    return b;
}

static char codetext[32];
static const char *text_or_code(DWORD c)
{
    const char *t = text_of(c);
    if (t) return t;
    snprintf(codetext, sizeof codetext, "%u", c);
    return codetext;
}

/* a new failure: code and text of its own */
static const char *win_fail(const char *what)
{
    char *t = NULL;
    DWORD c = 100000 + 7 * (DWORD)++uniq;
    if (env.msgkind == 'l') {
        t = malloc((size_t)env.msglen + 32);
        memset(t, 'L', (size_t)env.msglen + 32);
        int n = snprintf(t, 32, "M%d:", uniq);
        t[n] = 'L';
        t[env.msglen > n ? env.msglen : n] = 0;
    } else if (env.msgkind == 'u') {
        t = malloc(strlen(what) + 64);
        sprintf(t, "sys-%d: %s. ", uniq, what);
    }
    codes = realloc(codes, sizeof *codes * (size_t)(ncodes + 1));
    codes[ncodes].code = c;
    codes[ncodes++].text = t;
    lasterr = c;
    return text_or_code(c);
}

DWORD fw_GetLastError(void) { return lasterr; }
void fw_SetLastError(DWORD c) { lasterr = c; }

/* between operations: the last error is that of something unrelated */
void fk_win_event(int on)
{
    static DWORD n = 50000;
    quiet = !on;
    if (on) lasterr = n += 3;
    else if (nlocal) { FILE *f = call("leak"); fprintf(f, ",\"n\":%d,\"m\":\"\"}", nlocal); nlocal = 0; }
}

static struct local { struct local *next; } *locals;
static void *local_alloc(size_t n)
{
    struct local *l = malloc(sizeof *l + n);
    l->next = locals; locals = l; nlocal++;
    return l + 1;
}

HLOCAL fw_LocalFree(HLOCAL p)
{
    if (!p) return NULL;
    for (struct local **l = &locals; *l; l = &(*l)->next) if (*l + 1 == p) {
        struct local *o = *l;
        *l = o->next;
        nlocal--;
        free(o);
        return NULL;
    }
    FILE *f = call("badlocalfree");
    fprintf(f, ",\"m\":\"\"}");
    return p;
}

DWORD fw_FormatMessageW(DWORD fl, const void *src, DWORD id, DWORD lang, wchar_t *buf, DWORD size, va_list *va)
{
    (void)src; (void)lang; (void)va;
    const char *t = text_of(id);
    if (!t || !(fl & FORMAT_MESSAGE_FROM_SYSTEM) || !buf) { lasterr = 317; return 0; }
    size_t n = wide_to(t, NULL);
    if (fl & FORMAT_MESSAGE_ALLOCATE_BUFFER) {
        wchar_t *w = local_alloc((n > size ? n : size) * sizeof(wchar_t));
        wide_to(t, w);
        *(wchar_t **)(void *)buf = w;
    } else {
        if (n > size) { lasterr = 122; return 0; }
        wide_to(t, buf);
    }
    return (DWORD)n - 1;
}

DWORD fw_FormatMessageA(DWORD fl, const void *src, DWORD id, DWORD lang, char *buf, DWORD size, va_list *va)
{
    (void)src; (void)lang; (void)va;
    const char *t = text_of(id);
    if (!t || !(fl & FORMAT_MESSAGE_FROM_SYSTEM) || !buf) { lasterr = 317; return 0; }
    size_t n = strlen(t) + 1;
    if (fl & FORMAT_MESSAGE_ALLOCATE_BUFFER) {
        char *w = local_alloc(n > size ? n : size);
        memcpy(w, t, n);
        *(char **)(void *)buf = w;
    } else {
        if (n > size) { lasterr = 122; return 0; }
        memcpy(buf, t, n);
    }
    return (DWORD)n - 1;
}

/* --------------------------------------------------------------- loader */
static HMODULE win_open(const char *name, DWORD flags, bool wide)
{
    const char *m = "";
    int r = 0;
    struct fkh *h = take(name);
    if (h) { r = h->id; lasterr = 0; }
    else m = win_fail("module not found");
    FILE *f = call("open");
    cstr(f, "name", name);
    fprintf(f, ",\"flags\":%d,\"ns\":false,\"wide\":%s,\"r\":%d", (int)flags, wide ? "true" : "false", r);
    cstr(f, "m", m);
    fprintf(f, "}");
    return h;
}

HMODULE fw_LoadLibraryExA(const char *name, HANDLE z, DWORD flags) { (void)z; return win_open(name, flags, false); }
HMODULE fw_LoadLibraryExW(const wchar_t *name, HANDLE z, DWORD flags)
{
    (void)z;
    char *s = fk_narrow(name);
    HMODULE h = win_open(s, flags, true);
    free(s);
    return h;
}

FARPROC fw_GetProcAddress(HMODULE h, const char *name)
{
    const char *m = "";
    int i;
    void *p = find(h, name, &i);
    if (!p) m = win_fail("procedure not found");
    FILE *f = call("sym");
    fprintf(f, ",\"h\":%d", hid(h));
    cstr(f, "name", name);
    fprintf(f, ",\"s\":%d,\"r\":%d", i, fk_ptrid(p));
    cstr(f, "m", m);
    fprintf(f, "}");
    return (FARPROC)p;
}

BOOL fw_FreeLibrary(HMODULE h)
{
    const char *m = "";
    int id = hid(h), r = 0;
    if (env.close_fail || id <= 0) { m = win_fail("cannot free"); r = -1; }
    else ((struct fkh *)h)->open = 0;
    FILE *f = call("close");
    fprintf(f, ",\"h\":%d,\"r\":%d", id, r);
    cstr(f, "m", m);
    fprintf(f, "}");
    return r == 0 ? TRUE : FALSE;
}

/* the whole path or NULL */
static char *module_path(HMODULE h, const char **m)
{
    int id = hid(h);
    char *name = NULL;
    *m = "";
    if (env.info_fail || env.info_empty || id <= 0) { *m = win_fail("no module file name"); return NULL; }
    size_t n = env.pathlen ? (size_t)env.pathlen : 64;
    name = malloc(n + 64);
    int k = snprintf(name, n + 64, "C:\\info\\lib-%d.dll", id);
    if (env.pathlen) { while ((size_t)k < n) name[k++] = 'p'; name[n] = 0; }
    return name;
}

static void log_info(HMODULE h, const char *name, const char *m)
{
    FILE *f = call("info");
    fprintf(f, ",\"h\":%d,\"r\":%d,\"self\":false", hid(h), name ? 0 : -1);
    cstr(f, "name", name ? name : "");
#ifdef FK_DLFCN
    m = "";
#endif
    cstr(f, "m", m);
    fprintf(f, "}");
}

DWORD fw_GetModuleFileNameA(HMODULE h, char *buf, DWORD size)
{
    const char *m;
    char *name = module_path(h, &m);
    DWORD n = 0;
    if (name) {
        n = (DWORD)strlen(name);
        if (n < size) { memcpy(buf, name, n + 1); lasterr = 0; }
        else { memcpy(buf, name, size - 1); buf[size - 1] = 0; n = size; lasterr = 122; m = text_of(122); }
    }
    log_info(h, name, m);
    free(name);
    return n;
}

DWORD fw_GetModuleFileNameW(HMODULE h, wchar_t *buf, DWORD size)
{
    const char *m;
    char *name = module_path(h, &m);
    DWORD n = 0;
    if (name) {
        n = (DWORD)strlen(name);
        if (n < size) { wide_to(name, buf); lasterr = 0; }
        else { for (DWORD i = 0; i < size - 1; i++) buf[i] = (wchar_t)name[i]; buf[size - 1] = 0; n = size; lasterr = 122; m = text_of(122); }
    }
    log_info(h, name, m);
    free(name);
    return n;
}

/* ------------------------------------------------- C run-time functions */
/* env.conv = k: the k-th conversion of an operation fails */
static int conv_fails(void)
{
    if (quiet || env.conv <= 0 || --env.conv > 0) return 0;
    FILE *f = call("conv");
    fprintf(f, ",\"r\":0");
    cstr(f, "m", text_or_code(lasterr));
    fprintf(f, "}");
    return 1;
}

int fw_mbstowcs_s(size_t *ret, wchar_t *out, size_t size, const char *in, size_t count)
{
    (void)count;
    if (out && size) out[0] = 0;
    if (ret) *ret = 0;
    if (!in || (!out) != (size == 0)) return EINVAL;
    if (conv_fails()) return EILSEQ;
    size_t n = wide_to(in, NULL);
    if (!out) { if (ret) *ret = n; return 0; }
    wchar_t *w = fk_wide(in);
    size_t k = n <= size ? n : size;
    memcpy(out, w, k * sizeof(wchar_t));
    out[k - 1] = 0;
    free(w);
    if (ret) *ret = k;
    return n <= size ? 0 : 80; /* STRUNCATE */
}

int fw_wcstombs_s(size_t *ret, char *out, size_t size, const wchar_t *in, size_t count)
{
    (void)count;
    if (out && size) out[0] = 0;
    if (ret) *ret = 0;
    if (!in || (!out) != (size == 0)) return EINVAL;
    if (conv_fails()) return EILSEQ;
    size_t n = narrow_to(in, NULL);
    if (!out) { if (ret) *ret = n; return 0; }
    char *w = fk_narrow(in);
    size_t k = n <= size ? n : size;
    memcpy(out, w, k);
    out[k - 1] = 0;
    free(w);
    if (ret) *ret = k;
    return n <= size ? 0 : 80;
}

/* wide formatting as in Microsoft's library: %s is wide, %hs narrow, %ls wide */
static wchar_t *wformat(const wchar_t *fmt, va_list ap)
{
    size_t cap = 64, n = 0;
    wchar_t *o = malloc(cap * sizeof *o);
#define PUT(c) do { if (n + 2 > cap) { cap *= 2; o = realloc(o, cap * sizeof *o); } o[n++] = (c); } while (0)
    for (; *fmt; fmt++) {
        char num[64]; const wchar_t *w = NULL; wchar_t *own = NULL;
        if (*fmt != L'%') { PUT(*fmt); continue; }
        fmt++;
        int h = 0, l = 0, z = 0;
        for (; *fmt == L'h' || *fmt == L'l' || *fmt == L'z'; fmt++) { h |= *fmt == L'h'; l += *fmt == L'l'; z |= *fmt == L'z'; }
        num[0] = 0;
        switch (*fmt) {
        case L'%': PUT(L'%'); continue;
        case L's':
            if (h) { const char *s = va_arg(ap, const char *); w = own = fk_wide(s ? s : "(null)"); }
            else { w = va_arg(ap, const wchar_t *); if (!w) w = L"(null)"; }
            break;
        case L'S': { const char *s = va_arg(ap, const char *); w = own = fk_wide(s ? s : "(null)"); } break;
        case L'd': case L'i':
            if (z || l) snprintf(num, sizeof num, "%ld", va_arg(ap, long)); else snprintf(num, sizeof num, "%d", va_arg(ap, int));
            break;
        case L'u':
            if (z || l) snprintf(num, sizeof num, "%lu", va_arg(ap, unsigned long)); else snprintf(num, sizeof num, "%u", va_arg(ap, unsigned));
            break;
        case L'x': snprintf(num, sizeof num, "%x", va_arg(ap, unsigned)); break;
        default: fprintf(stderr, "unsupported wide format\n"); _exit(98);
        }
        if (!w) w = own = fk_wide(num);
        for (; *w; w++) PUT(*w);
        free(own);
    }
    o[n] = 0;
    return o;
}

int fw_snwprintf_s(wchar_t *out, size_t size, size_t count, const wchar_t *fmt, ...)
{
    (void)count;
    va_list ap;
    va_start(ap, fmt);
    wchar_t *w = wformat(fmt, ap);
    va_end(ap);
    size_t n = wcslen(w), k = n < size ? n : size - 1;
    memcpy(out, w, k * sizeof *w);
    out[k] = 0;
    free(w);
    return n < size ? (int)n : -1;
}

int fw_snprintf_s(char *out, size_t size, size_t count, const char *fmt, ...)
{
    (void)count;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(out, size, fmt, ap);
    va_end(ap);
    return (size_t)n < size ? n : -1;
}

int fw_fprintf_s(FILE *f, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int n = vfprintf(f, fmt, ap);
    va_end(ap);
    return n;
}

int fw_fwprintf_s(FILE *f, const wchar_t *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    wchar_t *w = wformat(fmt, ap);
    va_end(ap);
    char *s = fk_narrow(w);
    int n = fputs(s, f);
    free(w); free(s);
    return n;
}

/* message boxes count as error output */
int fw_MessageBoxA(HWND h, const char *text, const char *cap, UINT t) { (void)h; (void)cap; (void)t; fprintf(stderr, "%s\n", text); return 1; }
int fw_MessageBoxW(HWND h, const wchar_t *text, const wchar_t *cap, UINT t)
{
    char *s = fk_narrow(text);
    fw_MessageBoxA(h, s, NULL, t);
    free(s);
    (void)cap;
    return 1;
}
