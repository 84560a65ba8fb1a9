/* Scripted stand-in for the dynamic loader.
 *
 * The generated code is compiled with -Ddlopen=fk_dlopen etc., so every loader
 * call it makes ends here.  Each call is appended to the event log of the
 * operation under way; its outcome is scripted by the operation's environment. */
#ifndef FAKEDL_H
#define FAKEDL_H
#include <stddef.h>
#include <stdio.h>
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif

#define FK_LIBS 4

/* symbol universe of the program: provided by the generated harness */
extern const char *const fk_names[];
extern const int fk_nsym;
void *fk_address(int lib, int sym);          /* address of symbol in a library */

/* event log */
void fk_begin(const char *fmt, ...);         /* start an event: JSON members without braces */
void fk_add(const char *fmt, ...);           /* further members */
void fk_addstr(const char *key, const char *s);  /* "key":"escaped" (NULL -> "<NULL>") */
void fk_puts_json(FILE *f, const char *s);
void fk_names_json(void);
void fk_end(void);                           /* members, calls -> one line on the log */
void fk_calls_only(const char *op);          /* event made of the pending calls only */
FILE *fk_log(void);
int fk_real_atexit(void (*fn)(void));
int  fk_ptrid(const void *p);                /* 0 NULL, 1+1000*lib+sym, -1 unknown */

/* entries of the event's call sequence made by user code */
void fk_user(const char *f, int s, int lib, const char *args, const char *res);
void fk_usermsg(int cb, const char *m);
/* events that may end the process: standard error is captured, exit and fatal
   signals complete the event */
void fk_capture(void);
void fk_open_event(void);                    /* from here on the end of the process ends the event */
void fk_close_event(const char *ended);

/* environment of the next operation */
void fk_env(char *spec);                     /* "open=fail,miss=1+2,msg=none,..." */
char *fk_str(char *tok);                     /* decode string argument */

/* memory accounting */
void fk_track(int on);
int fk_live(void);
int fk_badfree(void);
void *fk_malloc(size_t n);
void *fk_calloc(size_t n, size_t m);
void *fk_realloc(void *p, size_t n);
char *fk_strdup(const char *s);
wchar_t *fk_wcsdup(const wchar_t *s);
void fk_free(void *p);
int fk_handle(const void *h);

/* Windows (fakewin.c) */
void fk_win_event(int on);                   /* an operation begins / is over */
char *fk_narrow(const wchar_t *w);
wchar_t *fk_wide(const char *s);

#ifdef __cplusplus
}
#endif
#endif
