"""Programs that call generated wrapper functions of arbitrary prototypes."""
import cdecl as d
from genharness import cstr, MAIN

VA = ' va_list va; va_start(va, {last}); {{ int x1 = va_arg(va, int); double x2 = va_arg(va, double); char *x3 = va_arg(va, char *); ap("%d", x1); ap("%g", x2); ap("%s", x3); }} va_end(va);'


def input_text(funcs, obj, names):
    """declarations for the tool"""
    o = [d.decl(f[1], n) if names else d.decl(f[1][1], n + "(" + d.params(f[1], False) + ")") for n, f in funcs]
    o = [x + ';' for x in o]
    return '\n'.join(o) + f'\nint {obj};\n'


def helpers(funcs, obj, rng, hooks, names, cxx, obj_index):
    """tables, targets, hooks: everything but the calls"""
    o = [d.PRELUDE, '#include <stdarg.h>',
         'static char pool[64] __attribute__((aligned(16)));',
         'static int dummyfn1(int x) { return x; } static int dummyfn2(int x) { return x + 1; }',
         'static char tb[65536]; static size_t tn;',
         'static void ap(const char *f, ...) { va_list v; va_start(v, f); if (tn && tn < sizeof tb) tb[tn++] = \'|\'; '
         'tn += (size_t)vsnprintf(tb + tn, sizeof tb - tn, f, v); va_end(v); }',
         'static void tclear(void) { tn = 0; tb[0] = 0; }',
         'static int dummy_use(void) { return dummyfn1(1) + dummyfn2(2) + (int)sizeof pool; }']
    allnames = [n for n, _ in funcs] + [obj]
    o.append('extern const char *const fk_names[]; extern const int fk_nsym;\n'
             'const char *const fk_names[] = {' + ', '.join(cstr(n) for n in allnames) + '};')
    o.append(f'const int fk_nsym = {len(allnames)};')
    for i, (n, f) in enumerate(funcs):
        t = f[1]
        R = t[1]
        plist = ', '.join([d.decl(p, q) for p, q in t[2]] + (['...'] if t[3] else [])) or 'void'
        shows = ' '.join(d.show(p, q) for p, q in t[2])
        va = VA.format(last=t[2][-1][1]) if t[3] else ''
        for lib in range(4):
            void = d.kind(R) == 'void'
            res = '' if void else d.sample(R, rng, 'r')
            retd = d.decl(R, f'T{lib}_{i}({plist})')
            o.append(f'static {retd} {{ char args[65536]; {res} tclear(); {shows}{va} strcpy(args, tb); tclear(); '
                     + ('' if void else d.show(R, 'r')) + f' fk_user("target", {i}, {lib}, args, tb);'
                     + ('' if void else ' return r;') + ' }')
        if hooks[i]:
            o.append(f'static void hook_{i}({plist}) {{ tclear(); {shows}{va} fk_user("hook", {i}, -1, tb, ""); }}')
            # by the names of the parameters, as the documentation shows, or by __VA_ARGS__
            byname = hooks[i] == 2 and not t[3] and t[2]
            pn = ', '.join((q if names else f'a{k + 1}') for k, (p, q) in enumerate(t[2]))
            o.append(f'#define @U@_HOOK_{n}(...) hook_{i}({pn if byname else "__VA_ARGS__"})')
    for lib in range(4):
        o.append(f'static int O{lib} = {lib} + 100;')
        o.append(f'static void *tab{lib}[] = {{ ' + ', '.join([f'(void *)T{lib}_{i}' for i in range(len(funcs))] + [f'(void *)&O{lib}']) + ' };')
    o.append('static void **tabs[] = { tab0, tab1, tab2, tab3 };')
    o.append(('extern "C" ' if cxx else '') + 'void *fk_address(int lib, int s) { return tabs[lib][s]; }')
    return '\n'.join(o)


def calls(funcs, rng, nv):
    """static void docall(int s, int v)"""
    o = ['static void docall(int s, int v) { char got[65536]; got[0] = 0; (void)got; tclear(); switch (s * 100 + v) {']
    for i, (n, f) in enumerate(funcs):
        t = f[1]
        for v in range(nv):
            o.append(f'case {i * 100 + v}: {{')
            args = []
            for k, (p, q) in enumerate(t[2]):
                o.append('  ' + d.sample(p, rng, f'v{k}') + ' ' + d.show(p, f'v{k}'))
                args.append(f'v{k}')
            if t[3]:
                a, b, s = rng.randint(-999, 999), rng.randint(0, 99) / 4, rng.choice(['abc', '', 'xyz%d'])
                o.append(f'  int e1 = {a}; double e2 = {b}; const char *e3 = {cstr(s)}; ap("%d", e1); ap("%g", e2); ap("%s", e3);')
                args += ['e1', 'e2', 'e3']
            o.append('  fk_addstr("given", tb); fk_open_event();')
            call = f'{n}({", ".join(args)})'
            if d.kind(t[1]) == 'void':
                o.append(f'  {call}; tclear();')
            else:
                rt = t[1]
                local = d.decl(rt, 'res') if rt[0] != 'b' else d.strip_cv(rt[1]) + ' res'
                o.append(f'  {local} = {call}; tclear(); {d.show(rt, "res")}')
            o.append('  fk_addstr("got", tb); break; }')
    o.append('default: fprintf(stderr, "bad call"); _exit(97); } fk_close_event("ret"); fk_add(",\\"status\\":0"); }')
    return '\n'.join(o)


def program(funcs, obj, rng, header, hooks, names, cxx, mode, deflib, pfx='gdo', nv=3):
    """funcs = [(name, (None, type))]"""
    U = pfx.upper()
    allnames = [n for n, _ in funcs] + [obj]
    load = ['static int loadnum(int i) { switch (i) {'] + [f'case {i}: return {U}_LOAD_{n};' for i, n in enumerate(allnames)] + ['} return -1; }']
    raw = ['static void *rawptr(int i) { switch (i) {'] + [f'case {i}: return (void *){U}_RAWPTR_{n};' for i, n in enumerate(allnames)] + ['} return NULL; }']
    loaded = f'{pfx}::dl::lib_loaded()' if cxx else f'{pfx}_lib_is_loaded()'
    if cxx:
        ops = f'''
        if (!strcmp(op, "load_name")) {{ fk_addstr("name", tok[2]); RET(D->load(tok[2])); }}
        else if (!strcmp(op, "free")) {{ RET(D->free()); }}
        else if (!strcmp(op, "force")) {{ RET(D->free(true)); }}
        else if (!strcmp(op, "load_all")) {{ RET(D->load_all_symbols()); }}
        else if (!strcmp(op, "load_num")) {{ int s = atoi(tok[2]); fk_add(",\\"s\\":%d", s); RET(D->load_symbol(loadnum(s))); }}
        else if (!strcmp(op, "cbset")) {{ int k = atoi(tok[2]); {pfx}::dl::message_callback(k == 0 ? nullptr : k == 1 ? cb1 : cb2);
            auto f = {pfx}::dl::message_callback(); fk_add(",\\"cb\\":%d,\\"now\\":\\"%s\\"", k, f == cb1 ? "1" : f == cb2 ? "2" : f ? "default" : "null"); RET(1); }}
'''
        pre = '''static void cb1(const char *m) { fk_usermsg(1, m); }
static void cb2(const char *m) { fk_usermsg(2, m); }
'''
        create = f'auto D = new {pfx}::dl(); D->free_lib_in_dtor(false);'
    else:
        ops = f'''
        if (!strcmp(op, "load_name")) {{ fk_addstr("name", tok[2]); RET({pfx}_load_lib_name(WIDE(tok[2]))); }}
        else if (!strcmp(op, "free")) {{ RET({pfx}_free_lib()); }}
        else if (!strcmp(op, "force")) {{ {pfx}_force_free_lib(); RET(1); }}
        else if (!strcmp(op, "autorel")) {{ RET({pfx}_enable_autorelease()); }}
        else if (!strcmp(op, "load_all")) {{ RET({pfx}_load_all_symbols()); }}
        else if (!strcmp(op, "load_num")) {{ int s = atoi(tok[2]); fk_add(",\\"s\\":%d", s); RET({pfx}_load_symbol(loadnum(s))); }}
'''
        pre = create = ''
    body = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include "fakedl.h"
@HELP@
#include "@HEADER@"
@MAIN@
#if defined(FK_WIN) && defined(_UNICODE)
# define WIDE(s) fk_wide(s)
#else
# define WIDE(s) (s)
#endif
@LOAD@
@RAW@
@CALLS@
@PRE@
#define RET(x) fk_add(",\"ret\":%s", (x) ? "true" : "false")
static void post(void)
{
    WINEV(0);
    fk_add(",\"loaded\":%s,\"ptr\":[", @LOADED@ ? "true" : "false");
    for (int i = 0; i < fk_nsym; i++) fk_add("%s%d", i ? "," : "", fk_ptrid(rawptr(i)));
    fk_add("]");
}
int main(void)
{
    @CREATE@
    fk_capture();
    (void)named; (void)final_dump; (void)exe; (void)dummy_use;
    fk_begin("\"op\":\"init\",\"cxx\":@CXX@,\"mode\":\"@MODE@\",\"n\":%d,\"defflags\":%d", fk_nsym, (int)(@U@_DEFAULT_FLAGS));
    fk_addstr("deflib", "@DEFLIB@");
    fk_add(",\"hooks\":[@HOOKS@]");
    platform();
    fk_names_json();
    fk_end();
    while (fgets(linebuf, sizeof linebuf, stdin)) {
        split(linebuf);
        if (ntok < 2) continue;
        fk_env(tok[0]);
        const char *op = tok[1];
        if (!strcmp(op, "exit")) exit(0);
        fk_begin("\"op\":\"%s\",\"o\":0", op);
        WINEV(1);
        if (!strcmp(op, "call")) { int s = atoi(tok[2]); fk_add(",\"s\":%d", s); docall(s, ntok > 3 ? atoi(tok[3]) : 0); RET(1); }
        else
        @OPS@
        else { _Exit(97); }
        post();
        fk_end();
    }
    exit(0);
}
'''
    return (body.replace('@HELP@', helpers(funcs, obj, rng, hooks, names, cxx, len(funcs))).replace('@HEADER@', header)
            .replace('@MAIN@', MAIN).replace('@LOAD@', '\n'.join(load)).replace('@RAW@', '\n'.join(raw))
            .replace('@CALLS@', calls(funcs, rng, nv)).replace('@PRE@', pre).replace('@LOADED@', loaded)
            .replace('@CREATE@', create).replace('@CXX@', 'true' if cxx else 'false').replace('@MODE@', mode)
            .replace('@HOOKS@', ','.join('true' if h else 'false' for h in hooks) + ',false').replace('@OPS@', ops)
            .replace('@DEFLIB@', deflib.replace('\\', '\\\\').replace('"', '\\"')).replace('@U@', U))
