#!/usr/bin/env python3
"""C01, C02, C04, C05: histories of the generated C and C++ API against spec/Loader.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import loader as L

PROP = sys.argv[1]
LANG = {'C01': ['c'], 'C02': ['cxx'], 'C04': ['c', 'cxx'], 'C05': ['c', 'cxx']}[PROP]


def check(chk):
    tool = c.build_tool()
    big = c.THOROUGH
    states = trans = runs_n = events = cov = tot = 0
    samples = []
    for lang in LANG:
        n = 3 if lang == 'c' else 2
        syms = L.SYMS[n]
        if lang == 'c':
            graph, init, s, t = L.mc(False, 3, [0], 2 if big else 1)
        else:
            graph, init, s, t = L.mc(True, 2, [1, 2], (1 if big else 0) if PROP == 'C02' else (1 if big else 0))
        states += s
        trans += t
        main, others = (L.C_VARIANTS[0], L.C_VARIANTS[1:]) if lang == 'c' else (L.CXX_VARIANTS[0], L.CXX_VARIANTS[1:])
        budget = (10 ** 9 if big else (40000 if lang == 'c' else 45000 if PROP == 'C02' else 20000))
        runs, covered, total = L.tours(graph, init, chk.rng, budget, 300)
        cov += covered
        tot += total
        runs += L.walks(graph, init, chk.rng, 400 if big else 20, 300)
        runs += L.renamed(L.walks(graph, init, chk.rng, 600 if big else 120, 30), chk.rng)
        samples.append({'variant': main.name, 'commands': runs[0][:12]})
        exes = c.pmap(lambda v: L.build_variant(tool, v, syms), [main] + others)
        a, b = L.check_runs(chk, exes[0], main.name, runs, PROP)
        runs_n += a
        events += b
        for v, e in zip(others, exes[1:]):
            if chk.violations:
                break
            sub = L.walks(graph, init, chk.rng, 120 if big else 6, 250) + L.renamed(L.walks(graph, init, chk.rng, 200 if big else 20, 30), chk.rng)
            k = len(runs) if big else 10
            sub += [r for r in chk.rng.sample(runs, min(k // 4 if big else k, len(runs)))]
            a, b = L.check_runs(chk, e, v.name, sub, PROP)
            runs_n += a
            events += b
    chk.cov = {'states': states, 'transitions': trans, 'traces_validated_against_impl': runs_n, 'samples': samples,
               'events_validated': events, 'model_transitions_taken': cov, 'model_transitions_labelled': tot,
               'variants': [v.name for v in (L.C_VARIANTS if 'c' in LANG else []) + (L.CXX_VARIANTS if 'cxx' in LANG else [])],
               'exhaustive': cov == tot}
    chk.assumptions = ['the system loader is replaced by a scripted one; POSIX (dlfcn) code paths only',
                       '2 (C++) or 3 (C) symbols, up to 2 C++ objects, call sequences up to 300 calls']


c.main(check, PROP, 'model_checking')
