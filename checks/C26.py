#!/usr/bin/env python3
"""C26: names of library files on each system (spec/FileNames.tla)"""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import front as F
import loader as L

PLAT = {'linux': '', 'freebsd': 'bsd', 'solaris': 'sun', 'macos': 'macos', 'android': 'android', 'msvc': 'win', 'mingw': 'win',
        'aix64': 'aix', 'aixxl64': 'aix', 'aix32': 'aix'}
EXTRA = {'mingw': ['-DFK_MINGW'], 'aixxl64': ['-DFK_AIXXL'], 'aix32': ['-DFK_AIX32']}
NAMES = ['foo', 'z', 'gtk-4', 'c++', 'Foo_2', 'a.b', 'xml2', 'lib', 'avutil', 'egl', 'ncurses']
APIS = ['0', '1', '12', '1.2', '4_0', '2a']


def model():
    cfg = ('SPECIFICATION Spec\nCONSTANTS Names = {"foo", "c++"}\n Apis = {"0", "1.2"}\nINVARIANTS Distinct OneForm EmitAll\n')
    rc, out = c.tlc('FileNamesMC', cfg, workers=1)
    if rc or 'No error has been found' not in out:
        raise c.Broken('FileNamesMC failed: ' + out[-2000:])
    gen, dist = c.tlc_numbers(out)
    cases = sorted({tuple(l.strip('"').split('|')[1:6]) for l in out.splitlines() if l.startswith('"CASE|')})
    return cases, gen, dist


def probe(fmt, pfx, header, macros, made):
    U = pfx.upper()
    cxx = fmt in ('C++', 'minimal-C++')
    o = ['#include <stdio.h>', '#include <string.h>', '#include <stdlib.h>', '#include <wchar.h>', '#include "fakedl.h"', '#ifdef __cplusplus', '#include <string>', '#endif', f'#include "{header}"',
         '#ifdef __cplusplus', 'extern "C" {', '#endif', 'const char *const fk_names[] = {"gdl_aa"}; const int fk_nsym = 1; void *fk_address(int a, int b) { (void)a; (void)b; return 0; }',
         '#ifdef __cplusplus', '}', '#endif', 'static void txt(const void *p, size_t size) { size_t i; putchar(34); for (i = 0; ; i++) { unsigned ch = size == 1 ? ((const unsigned char *)p)[i] :',
         '  (unsigned)((const wchar_t *)p)[i]; if (!ch) break; if (ch == 34 || ch == 92) putchar(92); putchar((int)ch); } putchar(34); }',
         '#define T(x) txt(x, sizeof(*(x)))', '#define B(x) printf("%s", (x) ? "true" : "false")', '#define S(x) printf("%s", x)',
         'int main(void) {']
    a = o.append
    a('S("{\\"macros\\":[");')
    for k, (n, v) in enumerate(macros):
        a(f'S("{"," if k else ""}{{\\"name\\":\\"{n}\\",\\"api\\":\\"{v}\\",\\"a\\":"); T({U}_LIBNAMEA({n}, {v})); S(",\\"w\\":"); T({U}_LIBNAMEW({n},{v}));')
        a(f'S(",\\"t\\":"); T({U}_LIBNAME({n},{v})); S(",\\"tw\\":"); B(sizeof(*{U}_LIBNAME({n},{v})) != 1 && sizeof(*{U}_LIBNAMEA({n},{v})) == 1 && sizeof(*{U}_LIBNAMEW({n},{v})) != 1); S("}}");')
    a(f'S("],\\"exts\\":{{\\"a\\":"); T({U}_LIBEXTA); S(",\\"w\\":"); T({U}_LIBEXTW); S(",\\"t\\":"); T({U}_LIBEXT); S(",\\"tw\\":"); B(sizeof(*{U}_LIBEXT) != 1); S("}},\\"made\\":[");')
    if fmt == 'C++':
        for k, (n, v) in enumerate(made):
            a(f'{{ std::string s = {pfx}::make_libname(std::string("{n}"), {v}); S("{"," if k else ""}{{\\"name\\":\\"{n}\\",\\"api\\":\\"{v}\\",\\"a\\":"); T(s.c_str());')
            a(f'#ifdef {U}_WINAPI\n{{ std::wstring w = {pfx}::make_libname(std::wstring(L"{n}"), {v}); S(",\\"hasw\\":true,\\"w\\":"); T(w.c_str()); }}\n#else\nS(",\\"hasw\\":false,\\"w\\":\\"\\"");\n#endif\nS("}}"); }}')
        a(f'S("],\\"consts\\":["); T({pfx}::libext);\n#ifdef {U}_WINAPI\nS(","); T({pfx}::libext_w);\n#endif\nS("]");')
    else:
        a('S("],\\"consts\\":[]");')
    a(f'#ifdef {U}_DEFAULT_LIB\nS(",\\"has\\":true,\\"def\\":"); T({U}_DEFAULT_LIB); S(",\\"defw\\":"); B(sizeof(*{U}_DEFAULT_LIB) != 1);\n#else\nS(",\\"has\\":false,\\"def\\":\\"\\",\\"defw\\":false");\n#endif')
    a(f'#ifdef {U}_HARDCODED_DEFAULT_LIBA\nS(",\\"hard\\":["); T({U}_HARDCODED_DEFAULT_LIBA); S(","); B(sizeof(*{U}_HARDCODED_DEFAULT_LIBA) == 1); S(","); T({U}_HARDCODED_DEFAULT_LIBW); S(","); B(sizeof(*{U}_HARDCODED_DEFAULT_LIBW) != 1); S("]");\n#else\nS(",\\"hard\\":[\\"?\\",true,\\"?\\",true]");\n#endif')
    a('S("}\\n"); return 0; }')
    return '\n'.join(o) + '\n', cxx


def check(chk):
    tool = c.build_tool()
    rng = chk.rng
    cases, states, dist = model()
    jobs = []
    for case in cases:
        for _ in range(6 if c.THOROUGH else 1):
            name, api = rng.choice(NAMES), rng.choice(APIS)
            pfx = rng.choice(['', '', 'Xy-9'])
            macros = [(rng.choice(NAMES), rng.choice(APIS)) for _ in range(5)]
            made = [(rng.choice(NAMES + ['x y', '']), str(rng.choice([0, 1, 9, 10, 4294967296, 18446744073709551615]))) for _ in range(4)]
            jobs.append((case, name, api, pfx, macros, made, rng.choice([0, 0, 1])))

    def one(j):
        k, ((plat, uni, dl, fmt, mode), name, api, pfx, macros, made, sep) = j
        w = c.sub(f'fn-{k}')
        p = 'xy_9' if pfx else 'gdo'
        with open(os.path.join(w, 'in.h'), 'w') as f:
            f.write('int gdl_aa(int x);\n')
        cxx = fmt in ('C++', 'minimal-C++')
        hdr = 'g.hpp' if cxx else 'g.h'
        lib = {'plain': [f'-library={name}'], 'ext': [f'-library=ext:{name}'], 'api': [f'-library=api:{api}:{name}'], 'none': []}[mode]
        sep = sep and not fmt.startswith('minimal')
        args = ['-format=' + fmt, '-no-date', '-force', '-out=' + hdr] + lib + (['-prefix=' + pfx] if pfx else []) + (['-separate'] if sep else [])
        r = c.gen(tool, args + ['in.h'], cwd=w)
        if r.returncode:
            return args, 'gendlopen failed: ' + r.stderr.decode('utf8', 'replace')[:300]
        src, _ = probe(fmt, p, hdr, macros, made)
        ext = '.cpp' if cxx else '.c'
        with open(os.path.join(w, 'h' + ext), 'w') as f:
            f.write(src)
        platform = ('dlfcn' if dl == 'd' else PLAT[plat])
        fl = L.platform_flags(platform, p.upper()) + EXTRA.get(plat, []) + (['-D_UNICODE', '-DUNICODE'] if uni == 'u' else []) + L.DL + ['-I' + L.HARN, '-I.', '-O0', '-Wl,--wrap=atexit']
        srcs = ['h' + ext] + (['g' + ext] if sep else []) + [fk[platform]]
        try:
            c.compile_c(os.path.join(w, 'h'), srcs, fl + (['-Werror=narrowing'] if cxx else []), cc='g++' if cxx else 'gcc', cwd=w)
        except c.BuildFailure as e:
            return args, 'the output does not compile for ' + plat + ': ' + str(e)[-900:]
        r = c.run([os.path.join(w, 'h')], cwd=w)
        try:
            e = json.loads(r.stdout)
        except ValueError:
            return args, f'the program for {plat} ended with status {r.returncode}: {r.stdout[-200:]!r}'
        h = e['hard']
        e['hard'] = [h[0] if h[1] else '?', h[2] if h[3] else '?']
        e.update(c={'plat': plat, 'uni': uni == 'u', 'dl': dl == 'd'}, mode=mode, name=name, api=api, mini=fmt.startswith('minimal'))
        return args, e
    fk = {}
    for platform in {'', 'dlfcn', *PLAT.values()}:
        fk[platform] = os.path.join(c.sub('fn-obj-' + (platform or 'linux')), 'fk.o')
        L.fake_loader(fk[platform], platform, [], os.path.dirname(fk[platform]))
    res = c.pmap(one, list(enumerate(jobs)))
    events = []
    for j, (args, e) in zip(jobs, res):
        if isinstance(e, str):
            chk.violation(':'.join(j[0]) + ':built', f'{j[0]}: {e}', {'case': j, 'options': args})
        else:
            events.append((j, args, e))
    bad, n = F.judge([e for _, _, e in events], 'FileNamesTrace')
    for i, why in bad[:20]:
        j, args, e = events[i]
        chk.violation(':'.join(j[0]) + ':' + why, f'{j[0]}: {why}: {json.dumps(e)[:600]}', {'case': j, 'options': args, 'event': e})
    chk.cov = {'states': states, 'distinct': dist, 'cases': len(cases), 'traces_validated_against_impl': n, 'programs': len(jobs), 'samples': [jobs[0][0]],
               'exhaustive': True}
    chk.assumptions = ['host compilers with the macros by which the target is recognised; 32 bit AIX: the macros only']


c.main(check, 'C26', 'model_checking')
