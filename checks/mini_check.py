#!/usr/bin/env python3
"""C08, C09: minimal and plugin loaders against spec/Minimal.tla and spec/Plugin.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import loader as L
import mini as M
import wrap as W

PROP = sys.argv[1]
MODULE = {'C08': 'MinimalTrace', 'C09': 'PluginTrace'}[PROP]


def check(chk):
    tool = c.build_tool()
    rng = chk.rng
    big = c.THOROUGH
    graph, init, states, trans = M.mc(PROP)
    vs = M.VARIANTS[PROP]
    exes = c.pmap(lambda v: M.build(tool, v, L.SYMS[3], PROP), vs)
    items, samples, cov = [], [], 0
    for k, (v, exe) in enumerate(zip(vs, exes)):
        full = k == 0 or (PROP == 'C08') or big
        runs, covered, total = L.tours(graph, init, rng, 10 ** 9 if full else 700, 60)
        if k == 0:
            cov, tot = covered, total
            samples = [{'variant': v.name, 'commands': runs[0][:10]}]
        items.append((v.name, 'model symbols', exe, runs + L.walks(graph, init, rng, 40 if big else 6, 60)))
    sets = []
    for k in range(40 if big else 10):
        n = rng.choice([1, 2, 5, 12, 40, 120] if PROP == 'C08' else [1, 2, 5, 12, 31])
        sets.append((vs[k % len(vs)], [(f'q{chr(97 + i % 3)}_{i}' if i % 4 else 'q' * (i // 4 + 1), rng.choice('fo')) for i in range(n)]))
    exes2 = c.pmap(lambda x: M.build(tool, *x, PROP), sets)
    for (v, syms), exe in zip(sets, exes2):
        items.append((v.name + '-random', {'symbols': syms}, exe, M.rand_runs(rng, min(len(syms), 31), 12 if big else 6, 40, PROP)))
    nrun, nev = W.judge(chk, items, PROP, MODULE, chunk=3000)
    chk.cov = {'states': states, 'transitions': trans, 'traces_validated_against_impl': nrun, 'events_validated': nev,
               'model_transitions_taken': cov, 'model_transitions_labelled': tot, 'exhaustive': cov == tot, 'programs': len(items),
               'variants': [v.name for v in vs], 'samples': samples}
    chk.assumptions = ['scripted dynamic loader; POSIX (dlfcn) code paths (Windows: C24)'] + (['memory allocation does not fail'] if PROP == 'C09' else [])


c.main(check, PROP, 'model_checking')
