#!/usr/bin/env python3
"""C27: generated loaders on the system's real dynamic linker against spec/System.tla"""
import collections, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import loader as L
import realsys as R

PROGRAMS = {'K1': ['c', 'c++'], 'K2': ['c', 'minimal'], 'K3': ['c++', 'auto']}


def graph(K):
    cfg = f'''SPECIFICATION Spec
CONSTANTS Kinds <- {K}
 Names = {{"abs1","rel",{'"link",' if c.THOROUGH or K != 'K1' else ''}"part","none"}}
 MaxCnt = {2 if c.THOROUGH and K != "K1" else 1}
 Ns = {{FALSE, TRUE}}
VIEW View
INVARIANTS Refs Bound Total
ACTION_CONSTRAINT EmitEdge
'''
    rc, out = c.tlc('SystemMC', cfg, workers=1)
    if rc != 0 or 'No error has been found' not in out:
        raise c.Broken('SystemMC failed:\n' + '\n'.join(l for l in out.splitlines() if not l.startswith('"'))[-3000:])
    g, init = collections.OrderedDict(), None
    for l in out.splitlines():
        if l.startswith('"') and l.count('|') == 2:
            f, cmd, t = l.strip('"').split('|')
            init = init or f
            g.setdefault(f, {}).setdefault(cmd, t)
    gen, dist = c.tlc_numbers(out)
    return g, init, dist, gen


def judge(chk, name, exe, world, runs, bad):
    """run and validate"""
    todo = []
    for run, lines, rc, err, ok in R.execute(exe, world, runs):
        if rc == 99:
            raise c.Broken('harness: ' + err)
        if not ok:
            run, lines, rc, err, ok = R.execute(exe, world, [run])[0]
            if not ok:
                k = len(lines)
                chk.violation(f'{name}:crash', f'{name}: program ended with status {rc} at command {run[k] if k < len(run) else "exit"!r}: {err[-300:]}',
                              {'program': name, 'commands': run[:k + 1], 'last events': lines[-3:]})
                continue
        todo.append((run, lines))
    groups, cur, n = [], [], 0
    for x in todo:
        cur.append(x)
        n += len(x[1])
        if n > 4000:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)
    inv = 'INVARIANT Good\n'
    res = c.pmap(lambda g: L.validate([l for x in g for l in x[1]], 'C27', name, 'SystemTrace', cfgx=inv, exact=False), groups, jobs=6)
    for g, (ok, at) in zip(groups, res):
        if ok:
            continue
        k = 0
        for run, lines in g:
            if at < k + len(lines):
                break
            k += len(lines)
        again = R.execute(exe, world, [run])[0]
        ok2, at2 = L.validate(again[1], 'C27', name, 'SystemTrace', cfgx=inv, exact=False)
        if ok2:
            raise c.Broken(f'{name}: a rejected execution was accepted when repeated')
        key = f'{name}:{run[at2].split()[1]}'
        if key not in bad:
            bad.add(key)
            chk.violation(key, f'{name}: after {at2} accepted steps, `{run[at2]}` did what the specification does not allow: {again[1][at2][:600]}',
                          {'program': name, 'commands': run[:at2 + 1], 'events': again[1][:at2 + 1]})
    return len(todo), sum(len(x[1]) for x in todo)


def check(chk):
    tool = c.build_tool()
    rng = chk.rng
    big = c.THOROUGH
    nrun = nev = states = trans = taken = total = 0
    bad, samples = set(), []
    graphs = c.pmap(graph, sorted(PROGRAMS))
    jobs = []
    for K, (g, init, dist, gen) in zip(sorted(PROGRAMS), graphs):
        runs, cov, tot = L.tours(g, init, rng, 10 ** 9 if big else 6000, 80)
        runs += L.walks(g, init, rng, 60 if big else 10, 80)
        states, trans, taken, total = states + dist, trans + gen, taken + cov, total + tot
        base = c.sub('sys-' + K)
        world = R.World(base, rng, False)
        jobs.append(('model-' + '-'.join(PROGRAMS[K]), base, world, PROGRAMS[K], world.w + '/d1/libone.so', 'abs1', runs, ('gcc', 'g++'), '-O1'))
        samples.append({'program': K, 'commands': runs[0][:10]})
    for k in range(24 if big else 8):
        base = c.sub(f'sys-rand{k}')
        world = R.World(base, rng, True)
        units = rng.sample(['c', 'c++', 'minimal', 'minimal++', 'auto', 'lazy', 'auto++', 'lazy++'], rng.randint(2, 6)) + (['plugin'] if k % 2 else []) + \
            (['c', 'c++'] if k % 3 == 0 else [])
        search = k % 2 == 0
        jobs.append((f'random-{k}-' + '-'.join(units), base, world, units, 'libsearch.so' if search else world.w + '/d1/libone.so',
                     'search' if search else 'abs1', None, [('gcc', 'g++'), ('clang', 'clang++')][k % 2], ['-O0', '-O2'][k // 2 % 2]))
    built = c.pmap(lambda j: R.build(tool, j[1], j[3], j[4], j[7], j[8], j[6] is None), jobs)
    for (name, base, world, units, lib, deflib, runs, cc, opt), (exe, kinds) in zip(jobs, built):
        if runs is None:
            runs = [R.rand_run(rng, world, kinds, 150) for _ in range(60 if big else 16)]
        runs = [[world.init(kinds, deflib)] + r for r in runs]
        a, b = judge(chk, name, exe, world, runs, bad)
        nrun += a
        nev += b
    chk.cov = {'states': states, 'transitions': trans, 'model_transitions_taken': taken, 'model_transitions_labelled': total,
               'traces_validated_against_impl': nrun, 'events_validated': nev, 'programs': len(jobs), 'samples': samples}
    chk.assumptions = ['the dynamic linker of this system (glibc) behaves as dlopen(3) says']


c.main(check, 'C27', 'model_checking')
