#!/usr/bin/env python3
"""C24, C25: the generated code as compiled for Windows and for other systems, against the same specifications"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import loader as L
import mini as M
import wrap as W

PROP = sys.argv[1]
UNI = ['-D_UNICODE', '-DUNICODE']
MB = ['-DGDO_USE_MESSAGE_BOX']
CONV = ['-DGDO_CONVERT_FILENAME']
X, m = W.V, M.V

LOADERS = {'C24': (L.WIN_C, L.WIN_CXX), 'C25': (L.OTHER_C, L.OTHER_CXX)}[PROP]
WRAPS = {
    'C24': [X('win-wrap', platform='win'), X('win-auto', mode='auto', platform='win'), X('win-lazy-unicode', mode='lazy', platform='win', cflags=UNI),
            X('win-auto-convert-separate', mode='auto', platform='win', cflags=CONV, separate=True),
            X('win-auto-box-unicode', mode='auto', platform='win', cflags=MB + UNI),
            X('win-lazy-box', mode='lazy', platform='win', cflags=MB),
            X('win-wrap-c++', 'cxx', platform='win'), X('win-auto-c++', 'cxx', 'auto', platform='win'),
            X('win-lazy-c++-unicode', 'cxx', 'lazy', platform='win', cflags=UNI),
            X('win-auto-c++-box', 'cxx', 'auto', platform='win', cflags=MB)],
    'C25': [X('dlfcn-win32-wrap', platform='dlfcn'), X('dlfcn-win32-auto', mode='auto', platform='dlfcn', cflags=UNI),
            X('dlfcn-win32-lazy-box', mode='lazy', platform='dlfcn', cflags=MB),
            X('dlfcn-win32-auto-box', mode='auto', platform='dlfcn', cflags=MB + UNI, separate=True),
            X('dlfcn-win32-auto-c++', 'cxx', 'auto', platform='dlfcn', cflags=MB + UNI),
            X('aix-auto', mode='auto', platform='aix'), X('aix-lazy-c++', 'cxx', 'lazy', platform='aix'),
            X('dladdr-lazy', mode='lazy', platform='other'), X('dladdr-auto-c++', 'cxx', 'auto', platform='other'),
            X('freebsd-auto', mode='auto', platform='bsd', cc='clang'), X('solaris-lazy-c++', 'cxx', 'lazy', platform='sun')]}[PROP]
MINIS = {
    'C24': [('C08', m('win-minimal', 'minimal', platform='win')), ('C08', m('win-minimal-static', 'minimal', platform='win', cflags=['-DGDO_STATIC'] + UNI)),
            ('C08', m('win-minimal-c++', 'minimal-C++', True, platform='win', cflags=UNI)),
            ('C09', m('win-plugin', 'plugin', platform='win')), ('C09', m('win-plugin-unicode-separate', 'plugin', platform='win', cflags=UNI, separate=True)),
            ('C09', m('win-plugin-as-c++', 'plugin', platform='win', asxx=True))],
    'C25': [('C08', m('dlfcn-win32-minimal', 'minimal', platform='dlfcn', cflags=UNI)), ('C08', m('aix-minimal', 'minimal', platform='aix')),
            ('C08', m('aix-minimal-c++', 'minimal-C++', True, platform='aix')), ('C08', m('freebsd-minimal', 'minimal', platform='bsd')),
            ('C09', m('dlfcn-win32-plugin', 'plugin', platform='dlfcn', cflags=UNI)), ('C09', m('aix-plugin', 'plugin', platform='aix')),
            ('C09', m('dladdr-plugin', 'plugin', platform='other', separate=True))]}[PROP]


def loaders(chk, tool, big):
    syms = L.SYMS[2]
    variants = LOADERS[0] + LOADERS[1]
    exes = dict(zip([v.name for v in variants], c.pmap(lambda v: L.build_variant(tool, v, syms), variants)))
    keys = sorted({(v.lang == 'cxx', L.wide(v) if v.lang == 'c' else 'A', L.source(v.platform)) for v in variants})
    win = PROP == 'C24'
    graphs = dict(zip(keys, c.pmap(lambda k: L.mc(k[0], 2, [1] if k[0] else [0], 1, win, k[1], k[2]), keys, jobs=4)))
    states, trans = sum(g[2] for g in graphs.values()), sum(g[3] for g in graphs.values())
    seen, cov, tot, nrun, nev, samples = set(), 0, 0, 0, 0, []
    for v in variants:
        if chk.violations:
            break
        k = (v.lang == 'cxx', L.wide(v) if v.lang == 'c' else 'A', L.source(v.platform))
        graph, init, _, _ = graphs[k]
        runs = []
        if k not in seen:
            # the first variant of each model: every labelled transition (as far as the budget goes)
            seen.add(k)
            runs, covered, total = L.tours(graph, init, chk.rng, 10 ** 9 if big else (16000 if win else 5500), 300)
            cov += covered
            tot += total
            samples.append({'variant': v.name, 'commands': runs[0][:10]})
        runs = L.adapt(runs + L.walks(graph, init, chk.rng, 150 if big else 7, 200) + L.renamed(L.walks(graph, init, chk.rng, 300 if big else 60, 30), chk.rng), v.platform, v.lang == 'cxx')
        a, b = L.check_runs(chk, exes[v.name], v.name, runs, PROP)
        nrun += a
        nev += b
    return states, trans, cov, tot, nrun, nev, samples


def programs(chk, tool, big):
    """wrappers, minimal and plugin loaders"""
    states = trans = cov = tot = 0
    samples = []
    kinds = sorted({(v.mode, v.lang == 'cxx') for v in WRAPS})
    graphs = dict(zip(kinds, c.pmap(lambda k: W.mc(*k), kinds, jobs=4)))
    exes = c.pmap(lambda k: W.build(tool, WRAPS[k], W.MODEL_FUNCS, W.MODEL_OBJ, [1, 0] if k % 2 else [0, 2], k), range(len(WRAPS)))
    items = []
    for v, exe in zip(WRAPS, exes):
        graph, init, s, t = graphs[(v.mode, v.lang == 'cxx')]
        runs = [[x + f' {chk.rng.randrange(W.NV)}' if x.split()[1] == 'call' else x for x in r]
                for r in L.walks(graph, init, chk.rng, 600 if big else 60, 25)]
        items.append((v.name, 'model functions', exe, runs))
    states += sum(g[2] for g in graphs.values())
    trans += sum(g[3] for g in graphs.values())
    nrun, nev = W.judge(chk, items, PROP)
    mg = {w: M.mc(w) for w in ('C08', 'C09')}
    exes = c.pmap(lambda x: M.build(tool, x[1], L.SYMS[3], x[0]), MINIS)
    for what, module in (('C08', 'MinimalTrace'), ('C09', 'PluginTrace')):
        graph, init, s, t = mg[what]
        states += s
        trans += t
        items, first = [], True
        for (w, v), exe in zip(MINIS, exes):
            if w != what:
                continue
            runs, covered, total = L.tours(graph, init, chk.rng, 10 ** 9 if big or what == 'C08' else 900, 60)
            if first:
                cov, tot, first = cov + covered, tot + total, False
            items.append((v.name, 'model symbols', exe, runs + L.walks(graph, init, chk.rng, 40 if big else 6, 60)
                          + M.rand_runs(chk.rng, 3, 10 if big else 3, 40, what)))
        a, b = W.judge(chk, items, what, module, chunk=3000)
        nrun += a
        nev += b
    return states, trans, cov, tot, nrun, nev, samples


def check(chk):
    tool = c.build_tool()
    a = loaders(chk, tool, c.THOROUGH)
    b = programs(chk, tool, c.THOROUGH) if not chk.violations else (0, 0, 0, 0, 0, 0, [])
    chk.cov = {'states': a[0] + b[0], 'transitions': a[1] + b[1], 'model_transitions_taken': a[2] + b[2], 'model_transitions_labelled': a[3] + b[3],
               'traces_validated_against_impl': a[4] + b[4], 'events_validated': a[5] + b[5], 'samples': a[6],
               'variants': [v.name for v in LOADERS[0] + LOADERS[1] + WRAPS] + [v.name for _, v in MINIS],
               'exhaustive': a[2] + b[2] == a[3] + b[3]}
    chk.assumptions = ['the system is replaced by scripted stand-ins of the calls the generated code makes (harness/fakewin.c, fakeaix.c, fakedl.c); '
                       'host compilers, with the macros by which the target is recognised',
                       '2 symbols, 1 C++ object; wrappers: 2 functions and 1 object']


c.main(check, PROP, 'model_checking')
