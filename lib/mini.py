"""Programs around minimal and plugin loaders: variants, builds, behaviours of the models."""
import collections, os
import common as c
import genharness as g
import loader as L
import miniharness as M

class V:
    def __init__(self, name, fmt, cxx=False, gen=(), cflags=(), cc=None, asxx=False, separate=False, platform=''):
        self.name, self.fmt, self.cxx, self.gen, self.cflags = name, fmt, cxx, list(gen), list(cflags)
        self.cc = cc or ('g++' if cxx or asxx else 'gcc')
        self.ext = '.cpp' if cxx or asxx else '.c'
        self.separate = separate
        self.platform = platform
        self.pfx = 'xy_9' if any(x.startswith('-prefix') for x in gen) else 'gdo'


VARIANTS = {
    'C08': [V('minimal', 'minimal'), V('minimal-c++', 'minimal-C++', True),
            V('minimal-static', 'minimal', cflags=['-DGDO_STATIC']), V('minimal-prefix', 'minimal', gen=['-prefix=Xy-9']),
            V('minimal-static-clang', 'minimal', cflags=['-DGDO_STATIC'], cc='clang'),
            V('minimal-as-c++', 'minimal', asxx=True), V('minimal-clang', 'minimal', cc='clang', gen=['-line'], cflags=['-O2']),
            V('minimal-skip', 'minimal', gen=['-param=skip']),
            V('minimal-c++-prefix', 'minimal-C++', True, gen=['-prefix=Xy-9', '-line']),
            V('minimal-c++-clang', 'minimal-C++', True, cc='clang++', cflags=['-O2'])],
    'C09': [V('plugin', 'plugin'), V('plugin-static', 'plugin', cflags=['-DGDO_STATIC']), V('plugin-prefix', 'plugin', gen=['-prefix=Xy-9']),
            V('plugin-as-c++', 'plugin', asxx=True), V('plugin-separate', 'plugin', separate=True),
            V('plugin-clang', 'plugin', cc='clang', gen=['-line', '-param=skip'], cflags=['-O2'])]}
MEM = '''#include <stdlib.h>
#include <string.h>
#include "fakedl.h"
#define malloc fk_malloc
#define calloc fk_calloc
#define realloc fk_realloc
#undef strdup
#define strdup fk_strdup
#undef wcsdup
#define wcsdup fk_wcsdup
#define free fk_free
'''
_n = [0]


def build(tool, v, syms, what):
    _n[0] += 1
    w = c.sub(f'm-{v.name}-{_n[0]}')
    U = v.pfx.upper()
    with open(os.path.join(w, 'in.h'), 'w') as f:
        f.write(g.protos(syms))
    args = ['-format=' + v.fmt, '-no-date', '-force', '-out=g.h'] + (['-separate'] if v.separate else []) + v.gen
    r = c.gen(tool, args + ['in.h'], cwd=w)
    if r.returncode:
        raise c.BuildFailure(f'gendlopen {" ".join(args)} failed: ' + r.stderr.decode('utf8', 'replace'))
    with open(os.path.join(w, 'h' + v.ext), 'w') as f:
        f.write(M.minimal(syms, 'g.h', v.cxx, v.pfx) if what == 'C08' else M.plugin(syms, 'g.h', v.pfx))
    flags = [x.replace('GDO_', U + '_') for x in v.cflags] + L.platform_flags(v.platform, U) + L.DL + ['-I' + L.HARN, '-I.', '-Wl,--wrap=atexit']
    if not any(x.startswith('-O') for x in flags):
        flags.append('-O1')
    fk = os.path.join(w, 'fk.o')
    L.fake_loader(fk, v.platform, [], w)
    objs = ['h' + v.ext, fk]
    if v.separate:
        with open(os.path.join(w, 'mem.h'), 'w') as f:
            f.write(MEM)
        c.compile_c('body.o', ['g.c'], [x for x in flags if not x.startswith('-Wl')] + ['-c', '-include', 'mem.h'], cc=v.cc, cwd=w)
        objs.append('body.o')
    exe = os.path.join(w, 'h')
    c.compile_c(exe, objs, flags, cc=v.cc, cwd=w)
    return exe


def mc(what):
    if what == 'C08':
        mod, cfg = 'MinimalMC', '''SPECIFICATION Spec
CONSTANT N = 3
VIEW View
INVARIANTS Total OneLibrary Whole
ACTION_CONSTRAINT EmitEdge
'''
    else:
        mod, cfg = 'PluginMC', f'''SPECIFICATION Spec
CONSTANTS N = 3
 Ids = {{0,1}}
 MaxLen = {3 if c.THOROUGH else 2}
 Names = {{"<NULL>","<EMPTY>","pa","pb-no","pc-m0","pd-m0-m1"}}
VIEW View
INVARIANTS NoLeak Indep
ACTION_CONSTRAINT EmitEdge
'''
    rc, out = c.tlc(mod, cfg, workers=1)
    if rc != 0 or 'No error has been found' not in out:
        raise c.Broken(mod + ' failed:\n' + '\n'.join(l for l in out.splitlines() if not l.startswith('"'))[-3000:])
    graph, init = collections.OrderedDict(), None
    for l in out.splitlines():
        if l.startswith('"') and l.count('|') == 2:
            f, cmd, t = l.strip('"').split('|')
            init = init or f
            graph.setdefault(f, {}).setdefault(cmd, t)
    gen, dist = c.tlc_numbers(out)
    return graph, init, dist, gen


def rand_runs(rng, n, count, length, what):
    """beyond the model's bounds: more symbols, more and longer lists, long names"""
    runs = []
    for _ in range(count):
        run, ids = [], set()
        for _ in range(length):
            if what == 'C08':
                env = '-' + rng.choice(['', '', '', ',open', ',close']) + \
                    (',miss=' + '+'.join(map(str, rng.sample(range(n), rng.randint(1, min(3, n))))) if rng.random() < .4 else '') + \
                    rng.choice(['', '', ',msg=n', ',msg=e', ',msg=l9000'])
                r = rng.random()
                run.append(f'{env} load ' + rng.choice(['liba', 'libb', '<NULL>', '<EMPTY>', '@x5000', './%s%n']) if r < .5
                           else f'{env} free' if r < .65 else f'- use {rng.randrange(n)}')
            else:
                if ids and rng.random() < .4:
                    i = rng.choice(sorted(ids))
                    ids.discard(i)
                    run.append(rng.choice(['-', '-,close']) + f' release {i}')
                elif rng.random() < .05:
                    run.append(f'- null 0 {rng.choice([-1, 0, 1, 1000000])}')
                elif len(ids) < 20:
                    i = rng.choice([k for k in range(40) if k not in ids])
                    ids.add(i)
                    k = rng.choice([x for x in (1, 2, 3, 5, 9, 30, 100) if x * n <= 300])
                    names = [rng.choice(['<NULL>', '<EMPTY>', 'pa', 'pa', 'pb', 'pz-no', 'pm' + ''.join(f'-m{x}' for x in rng.sample(range(n), min(n, 2))),
                                         f'pm{rng.randrange(99)}-m{rng.randrange(n)}', '@y5000', '%s']) for _ in range(k)]
                    run.append(f'-,byname load {i} ' + ','.join(names))
        runs.append(run)
    return runs
