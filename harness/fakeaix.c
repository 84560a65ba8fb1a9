/* Scripted loadquery() of AIX, on top of fakedl.c */
#include "fakedl.c"
#include <errno.h>
#include "aix/sys/ldr.h"

static char *put(char *at, char *end, struct ld_info **last, const void *p, const char *file, const char *member)
{
    size_t n = (offsetof(struct ld_info, ldinfo_filename) + strlen(file) + strlen(member) + 2 + 15) & ~(size_t)15;
    if (!at || at + n > end) return NULL;
    struct ld_info *l = (struct ld_info *)at;
    memset(l, 0, n);
    /* one module per symbol: text or data, at most a byte long */
    if ((uintptr_t)p % 3) { l->ldinfo_textorg = (void *)(uintptr_t)p; l->ldinfo_textsize = 1; l->ldinfo_dataorg = (char *)p + 1; }
    else { l->ldinfo_dataorg = (void *)(uintptr_t)p; l->ldinfo_datasize = 1; l->ldinfo_textorg = (char *)p - 8; l->ldinfo_textsize = 8; }
    strcpy(l->ldinfo_filename, file);
    strcpy(l->ldinfo_filename + strlen(file) + 1, member);
    if (*last) (*last)->ldinfo_next = (unsigned)((char *)l - (char *)*last);
    *last = l;
    return at + n;
}

/* modules right before and after a symbol which belong to other libraries */
static char *neighbours(char *at, char *end, struct ld_info **last, const char *p)
{
    struct ld_info *l;
    for (int i = 0; i < FK_LIBS; i++)
        for (int j = 0; j < fk_nsym; j++) {
            const char *a = fk_address(i, j);
            if (a != p && a >= p - 4 && a < p + 3) return at;
        }
    if (!(at = put(at, end, last, p, "/usr/lib/libnear.a", "shr.o"))) return NULL;
    l = *last;
    l->ldinfo_textorg = (void *)(p - 4); l->ldinfo_textsize = 4;
    l->ldinfo_dataorg = (void *)(p - 2); l->ldinfo_datasize = 2;
    if (!(at = put(at, end, last, p, "/usr/lib/libnear2.a", "shr.o"))) return NULL;
    l = *last;
    l->ldinfo_textorg = (void *)(p + 1); l->ldinfo_textsize = 1;
    l->ldinfo_dataorg = (void *)(p + 2); l->ldinfo_datasize = 4;
    return at;
}

int fk_loadquery(int what, void *buf, unsigned int len)
{
    char *at = buf, *end = at + len;
    struct ld_info *last = NULL;
    int r = 0;
    char *name = NULL, *full = NULL;
    const char *member = env.rel ? "" : "shr_64.o";

    (void)what;
    if (env.info_fail || what != L_GETINFO) r = -1;
    else {
        size_t n = env.pathlen ? (size_t)env.pathlen : 64;
        name = malloc(n + 64);
        full = malloc(n + 128);
        int k = snprintf(name, n + 64, "/info/lib-%d.a", nopen);
        if (env.pathlen) {
            n -= *member ? strlen(member) + 2 : 0;
            while ((size_t)k < n) name[k++] = 'p';
            name[n] = 0;
        }
        if (env.info_empty) *name = 0;
        sprintf(full, *member && *name ? "%s(%s)" : "%s", name, member);
        at = put(at, end, &last, (void *)0x1000, "/usr/bin/program", "");
        /* the other libraries were unloaded, but their addresses may be near */
        at = put(at, end, &last, (void *)0x2000, "/usr/lib/libc.a", "shr.o");
        /* the open library; room is limited, so a long name is given once */
        for (int i = 0; at && i < fk_nsym; i++) {
            const void *p = fk_address(nopen % FK_LIBS, i);
            if (i < 16) at = neighbours(at, end, &last, p);
            if (!at) break;
            at = put(at, end, &last, p, name, *name ? member : "");
        }
        at = put(at, end, &last, (void *)0x3000, "/usr/lib/libz.a", "shr.o");
        if (!at) { r = -1; errno = ENOMEM; }
    }
    FILE *f = call("info");
    fprintf(f, ",\"h\":%d,\"r\":%d,\"self\":false", nopen, r);
    cstr(f, "name", r == 0 ? full : "");
    cstr(f, "m", "");
    fprintf(f, "}");
    free(name); free(full);
    return r;
}
