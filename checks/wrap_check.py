#!/usr/bin/env python3
"""C06, C07: calls through generated wrapper functions against spec/Wrap.tla"""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import cdecl as d
import loader as L
import wrap as W

PROP = sys.argv[1]
V = W.V

MAIN = {'C06': [V('c-wrap'), V('c++-wrap', 'cxx')],
        'C07': [V('c-auto', mode='auto'), V('c-lazy', mode='lazy'), V('c++-auto', 'cxx', 'auto'), V('c++-lazy', 'cxx', 'lazy')]}


def variants(prop):
    out = []
    for mode in (['wrap'] if prop == 'C06' else ['auto', 'lazy']):
        out += [V(f'c-{mode}-O0', mode=mode, cflags=['-O0']),
                V(f'c-{mode}-O2', mode=mode, cflags=['-O2']),
                V(f'c-{mode}-static', mode=mode, cflags=['-DGDO_STATIC', '-DGDO_DISABLE_WARNINGS']),
                V(f'c-{mode}-separate', mode=mode, separate=True),
                V(f'c-{mode}-visible', mode=mode, cflags=['-DGDO_WRAP_VISIBILITY=', '-O2']),
                V(f'c-{mode}-prefix', mode=mode, gen=['-prefix=Xy-9']),
                V(f'c-{mode}-clang', mode=mode, cc='clang'),
                V(f'c-{mode}-clang-separate', mode=mode, cc='clang', separate=True, gen=['-line']),
                V(f'c-{mode}-as-c++', mode=mode, asxx=True),
                V(f'c-{mode}-create', mode=mode, names=False),
                V(f'c++-{mode}-O0', 'cxx', mode, cflags=['-O0']),
                V(f'c++-{mode}-separate', 'cxx', mode, separate=True),
                V(f'c++-{mode}-visible', 'cxx', mode, cflags=['-DGDO_WRAP_VISIBILITY=', '-O2']),
                V(f'c++-{mode}-prefix', 'cxx', mode, gen=['-prefix=Xy-9', '-line']),
                V(f'c++-{mode}-clang', 'cxx', mode, cc='clang++', cflags=['-O2']),
                V(f'c++-{mode}-create', 'cxx', mode, names=False)]
        if mode != 'wrap':
            for dl in ('lib%s%n%d.so', '100%', 'a b\\"c', 'x' * 3000):
                out += [V(f'c-{mode}-deflib-{dl[:4].strip()}', mode=mode, deflib=dl), V(f'c++-{mode}-deflib-{dl[:4].strip()}', 'cxx', mode, deflib=dl)]
    return out


def with_values(rng, runs):
    return [[x + f' {rng.randrange(W.NV)}' if x.split()[1] == 'call' else x for x in r] for r in runs]


def rand_run(rng, nf, n, cxx, mode, length):
    out = []
    for _ in range(length):
        r = rng.random()
        miss = '' if rng.random() < (.75 if mode == 'wrap' else .93) else ',miss=' + '+'.join(map(str, rng.sample(range(n), rng.randint(1, min(n, 3)))))
        env = '-' + miss + (',open' if rng.random() < (.03 if mode != 'wrap' else .1) else '') + (',close' if rng.random() < .06 else '')
        if rng.random() < .1:
            env += rng.choice([',msg=n', ',msg=e', ',msg=l300', ',msg=l20000'])
        if r < .55:
            out.append(f'{env} call {rng.randrange(nf)} {rng.randrange(W.NV)}')
        elif r < .65:
            out.append(f'{env} load_name lib{rng.randrange(3)}')
        elif r < .78:
            out.append(f'{env} load_all')
        elif r < .85:
            out.append(f'{env} load_num {rng.randrange(n)}')
        elif r < .90:
            out.append(f'{env} ' + rng.choice(['free', 'force']))
        elif cxx:
            out.append(f'- cbset {rng.randrange(3)}')
        else:
            out.append(rng.choice(['-', '-,atexit']) + ' autorel')
    return out


def loaded_first(rng, nf, n, mode):
    """every function called with every set of arguments, after loading"""
    out = ['- load_name libfirst', '- load_all'] if mode == 'wrap' or rng.random() < .5 else []
    cs = [f'- call {i} {v}' for i in range(nf) for v in range(W.NV)]
    rng.shuffle(cs)
    return out + cs


def check(chk):
    tool = c.build_tool()
    big = c.THOROUGH
    rng = chk.rng
    states = trans = cov = tot = 0
    items, samples = [], []
    mains = MAIN[PROP]
    graphs = dict(zip([v.name for v in mains], c.pmap(lambda v: W.mc(v.mode, v.lang == 'cxx'), mains, jobs=4)))
    exes = c.pmap(lambda k: W.build(tool, mains[k], W.MODEL_FUNCS, W.MODEL_OBJ, [1, 0] if k % 2 else [0, 2], chk.rng.random() if 0 else k), range(len(mains)))
    for v, exe in zip(mains, exes):
        graph, init, s, t = graphs[v.name]
        states += s
        trans += t
        runs, covered, total = tours(graph, init, rng, 10 ** 9 if big else 9000)
        cov += covered
        tot += total
        items.append((v.name, 'model functions', exe, with_values(rng, runs)))
        samples.append({'variant': v.name, 'commands': items[-1][3][0][:12]})
    # other ways to build, and arbitrary prototypes
    vs = variants(PROP)
    jobs = []
    for v in vs:
        graph, init, _, _ = graphs[f'{"c++" if v.lang == "cxx" else "c"}-{v.mode}']
        jobs.append((v, W.MODEL_FUNCS, [2, 1], rng.randrange(10 ** 9),
                     with_values(rng, short(L.walks(graph, init, rng, 60 if big else 6, 25)))))
    allv = vs + mains
    for k in range(len(allv) * (16 if big else 4 if PROP == "C06" else 1)):
        v = allv[k % len(allv)]
        nf = rng.randint(3, 14)
        funcs = []
        for i in range(nf):
            va = v.names and rng.random() < .2 and not ('visible' in v.name)
            nm = rng.choice(['gdl_', 'gdl_F', 'g_', 'gdl__']) + rng.choice('abcXYZ') + str(i)
            funcs.append((nm, (None, d.rand_func(rng, 7, va))))
        hooks = [rng.choice([0, 1, 2]) for _ in funcs]
        if v.lang == 'cxx' or any(f[1][3] for _, f in funcs):
            # hooks of variadic functions take __VA_ARGS__
            hooks = [1 if h and f[1][3] else h for h, (_, f) in zip(hooks, funcs)]
        runs = [loaded_first(rng, nf, nf + 1, v.mode) for _ in range(2)] + \
               [rand_run(rng, nf, nf + 1, v.lang == 'cxx', v.mode, 30) for _ in range(12 if big else 6)]
        jobs.append((v, funcs, hooks, rng.randrange(10 ** 9), runs))
    if PROP == 'C06':
        # forwarding is the same with auto-loading once everything is loaded
        for k in range(40 if big else 8):
            v = V(['c-auto', 'c++-auto', 'c-lazy', 'c++-lazy'][k % 4], 'cxx' if k % 2 else 'c', 'auto' if k % 4 < 2 else 'lazy', cflags=['-O2'] if k > 3 else [])
            funcs = [(f'gdl_r{i}', (None, d.rand_func(rng, 5, i % 4 == 3))) for i in range(8)]
            hooks = [rng.choice([0, 1]) for _ in funcs]
            jobs.append((v, funcs, hooks, rng.randrange(10 ** 9), [loaded_first(rng, 8, 9, 'wrap') for _ in range(2)]))
    built = c.pmap(lambda j: W.build(tool, j[0], j[1], W.MODEL_OBJ, j[2], j[3]), jobs)
    for (v, funcs, hooks, seed, runs), exe in zip(jobs, built):
        items.append((v.name, {'prototypes': [d.decl(f[1], n) for n, f in funcs], 'hooks': hooks, 'gen': v.gen, 'cflags': v.cflags}, exe, runs))
    nrun, nev = W.judge(chk, items, PROP)
    chk.cov = {'states': states, 'transitions': trans, 'traces_validated_against_impl': nrun, 'events_validated': nev,
               'model_transitions_taken': cov, 'model_transitions_labelled': tot, 'programs': len(items),
               'prototypes': sum(len(j[1]) for j in jobs), 'exhaustive': cov == tot, 'samples': samples}
    chk.assumptions = ['scripted dynamic loader; POSIX (dlfcn) code paths only', 'prototypes of up to 7 parameters built from the types of lib/cdecl.py']


def tours(graph, init, rng, budget):
    """like loader.tours, but a process may end in the middle of the graph"""
    runs, cov, total = L.tours(graph, init, rng, budget, 40)
    # states without successors end a run; the rest of the graph is entered again from the start
    return runs, cov, total


def short(runs):
    return [r for r in runs if r]


c.main(check, PROP, 'model_checking')
