#!/usr/bin/env python3
"""C03: symbol lookup by number and name, over many sets of symbol names"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import loader as L


def name_sets(alphabet, maxlen, maxset, lead):
    cfg = f'''SPECIFICATION Spec
CONSTANTS Alphabet = {{{",".join('"%s"' % a for a in alphabet)}}} MaxLen = {maxlen} MaxSet = {maxset} Lead = {{{",".join('"%s"' % a for a in lead)}}}
INVARIANTS ShortcutRight LcpShared Maximal OneIsItself EmitInv
'''
    rc, out = c.tlc('NamesMC', cfg)
    if rc or 'No error has been found' not in out:
        raise c.Broken('NamesMC failed:\n' + out[-2000:])
    sets = [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"[')]
    uniq = []
    for s in sets:
        if s not in uniq:
            uniq.append(s)
    return uniq, c.tlc_numbers(out)


def commands(rng, syms, cxx):
    """a call sequence asking for every symbol and for everything close to one"""
    names = [n for n, _ in syms]
    near = set()
    for n in names[:40]:
        near |= {n[:k] for k in range(1, len(n))} if len(n) < 12 else {n[:1], n[:-1], n[:len(n) // 2]}
        near |= {n + x for x in ('a', '_', n[-1], '1')} | {n.lower(), n.upper(), n.swapcase(), 'x' + n, n[1:] or 'x', n[::-1],
                                                           n[:-1] + chr(ord(n[-1]) ^ 1) if (n[:-1] + chr(ord(n[-1]) ^ 1)).isidentifier() else 'zz'}
    near = sorted(q for q in near - set(names) if q and ' ' not in q and q.isprintable())
    rng.shuffle(near)
    o = ' 1' if cxx else ''
    n = len(names)
    cmds = []
    for k in rng.sample(range(n), min(n, 60)):
        cmds.append(('load_sym', names[k], k))
        cmds.append(('load_num', str(k), k))
        cmds.append(('miss_sym', names[k], k))
        cmds.append(('miss_num', str(k), k))
    cmds += [('load_sym', q, None) for q in near[:60]] + [('load_sym', q, None) for q in ('<NULL>', '<EMPTY>')]
    cmds += [('load_rawnum', str(v), None) for v in (-1, n, n + 1, -2147483648, 2147483647, 255, 256, 65536)] + [('load_last', '', None)]
    cmds += [('load_rawnum', str(v), None) for v in range(n)][:40]
    rng.shuffle(cmds)
    out = [f'- new0 1'] if cxx else []
    loaded = False
    for op, arg, k in cmds:
        if not loaded or rng.random() < 0.25:
            if loaded:
                out.append(f'- force{o}')
            out.append(f'- load_name{o} lib')
            loaded = True
        if op.startswith('miss_'):
            out.append(f'-,miss={k} load_{op[5:]}{o} {arg}')
        else:
            out.append(f'- {op}{o} {arg}')
        if k is not None and rng.random() < 0.7:
            out.append(f'- use{o} {k}')
    return out


def check(chk):
    tool = c.build_tool()
    rng = chk.rng
    big = c.THOROUGH
    sets, (st, dist) = name_sets(['a', 'b', '_'], 2, 4 if big else 3, ['Q'])
    sets2, (st2, d2) = name_sets(['a', 'A'], 1, 3, ['Q', 'K'])
    sets += sets2
    # kinds and larger sets
    def kinds(ns):
        mode = rng.random()
        return [(n, 'f' if mode < .3 or (mode < .8 and rng.random() < .5) else 'o') for n in ns]
    todo = [(kinds(s), 'c') for s in sets] + [(kinds(s), 'cxx') for s in (sets if big else rng.sample(sets, 40))]
    if not big:
        todo = [x for x in todo if x[1] == 'cxx'] + rng.sample([x for x in todo if x[1] == 'c'], 240)

    def word():
        return ''.join(rng.choice('abAB_19z') for _ in range(rng.randint(0, 9)))
    large = []
    for size in ([2, 7, 20, 50, 100, 101, 150, 256, 257, 400] * (3 if big else 1)):
        pfx = rng.choice(['Q', 'Q_', 'Qlib_', 'Qlongprefix_' * 10])
        ns = set()
        while len(ns) < size:
            ns.add(pfx + word() if rng.random() < .9 or size < 10 else pfx[:-1] + 'Z' + word())
        ns = sorted(ns)
        rng.shuffle(ns)
        large.append(ns)
    # long names which differ in one place only
    for stem in [6, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65, 90, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513] + [rng.randint(5, 600) for _ in range(20 if big else 4)]:
        base = ''.join(rng.choice('abAB_19z') for _ in range(stem))
        ns = {'Q' + base}
        while len(ns) < rng.choice([3, 4, 6]):
            k = rng.choice([0, stem - 1, stem - 1, stem - 2, rng.randrange(stem)])
            ns.add('Q' + base[:k] + rng.choice('abAB_19zyx') + base[k + 1:])
        ns = sorted(ns | ({'K' + base} if rng.random() < .6 else set()) | ({'Q' + base + 'q'} if rng.random() < .3 else set()))
        rng.shuffle(ns)
        large.append(ns)
    large.append(['Q' + 'x' * 3000, 'Q' + 'x' * 2999, 'Q' + 'x' * 2999 + 'y'])
    todo += [(kinds(s), 'c') for s in large] + [(kinds(s), 'cxx') for s in large[::1 if big else 3]]

    cmds = [commands(rng, s, lang == 'cxx') for s, lang in todo]

    def one(k):
        syms, lang = todo[k]
        v = L.Variant(f'{lang}-{k}', lang, cc='gcc' if lang == 'c' else 'g++', cflags=['-O0', '-O2'][0:1])
        return L.build_variant(tool, v, syms)
    exes = c.pmap(one, range(len(todo)))
    # one process per set; the traces of many sets are judged together
    allres = c.pmap(lambda k: L.execute(exes[k], [cmds[k]])[0], range(len(todo)))
    nrun = nev = 0
    group, idx = [], []

    def flush(group, idx):
        ev = [l for g in group for l in g]
        return L.validate(ev, 'C03', 'sets')
    batches, cur, n = [], [], 0
    for k, (run, lines, rc, err) in enumerate(allres):
        if rc in (97, 98, 99):
            raise c.Broken(err)
        if rc != 0 or len(lines) != len(run) + 2:
            chk.violation('crash', f'symbols {todo[k][0][:8]}: generated code ended with status {rc}: {err[-300:]}',
                          {'symbols': todo[k][0], 'commands': run, 'last': lines[-2:]})
            continue
        cur.append(k)
        n += len(lines)
        if n > 6000:
            batches.append(cur)
            cur, n = [], 0
    if cur:
        batches.append(cur)
    res = c.pmap(lambda b: L.validate([l for k in b for l in allres[k][1]], 'C03', 'sets'), batches, jobs=6)
    for b, (ok, at) in zip(batches, res):
        nrun += len(b)
        nev += sum(len(allres[k][1]) for k in b)
        if ok:
            continue
        off = 0
        for k in b:
            if at < off + len(allres[k][1]):
                break
            off += len(allres[k][1])
        again = L.execute(exes[k], [cmds[k]])[0]
        ok2, at2 = L.validate(again[1], 'C03', 'sets')
        if ok2:
            raise c.Broken('a rejected execution was accepted when repeated')
        cmd = 'start' if at2 == 0 else again[0][at2 - 1] if at2 <= len(again[0]) else 'exit'
        chk.violation(f'lookup:{todo[k][1]}:{cmd.split()[1] if " " in cmd else cmd}',
                      f'{todo[k][1]} symbols {[n for n, _ in todo[k][0]][:6]}: `{cmd}`: {again[1][at2][:600]}',
                      {'symbols': todo[k][0], 'commands': again[0][:at2], 'rejected event': again[1][at2]})
    chk.cov = {'states': dist + d2, 'transitions': st + st2, 'traces_validated_against_impl': nrun, 'events_validated': nev,
               'symbol_sets': len(sets), 'programs': len(todo),
               'samples': [{'symbols': todo[k][0], 'commands': cmds[k][:6]} for k in (0, len(todo) // 2)]}
    chk.assumptions = ['scripted dynamic loader; names up to 3 characters exhaustively for sets of up to 3 (4) names, random beyond']


c.main(check, 'C03', 'model_checking')
