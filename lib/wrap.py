"""Conformance of generated wrapper functions with spec/Wrap.tla."""
import collections, os, random
import common as c
import cdecl as d
import loader as L
import wrapharness as W

MODES = {'wrap': '-DGDO_WRAP_FUNCTIONS', 'auto': '-DGDO_ENABLE_AUTOLOAD', 'lazy': '-DGDO_ENABLE_AUTOLOAD_LAZY'}
NV = 3

INT = ('b', 'int')
MODEL_FUNCS = [('gdl_aa', (None, ('f', INT, [(INT, 'x')], False))),
               ('gdl_ab', (None, ('f', ('p', ('b', 'const char'), ''), [(('p', ('b', 'void'), ''), 'p'), (('b', 'struct gdl_s'), 's')], False)))]
MODEL_OBJ = 'gdl_abc'


def mc(mode, cxx):
    """explore WrapMC; returns (graph, init, distinct states, generated)"""
    cfg = f'''SPECIFICATION WSpec
CONSTANTS N = 3
 Cxx = {"TRUE" if cxx else "FALSE"}
 Objs = {{0}}
 Emit = TRUE
 Rich = 0
 Win = FALSE
 Wd = "A"
 Src = "info+addr"
 Mode = "{mode}"
 F = 2
VIEW WView
INVARIANTS TargetCurrent Released ModeEnds WPtr
PROPERTIES WrapLoadsNothing
ACTION_CONSTRAINT WEmit
'''
    rc, out = c.tlc('WrapMC', cfg, workers=1)
    if rc != 0 or 'No error has been found' not in out:
        raise c.Broken('WrapMC failed:\n' + '\n'.join(l for l in out.splitlines() if not l.startswith('"'))[-3000:])
    graph, init = collections.OrderedDict(), None
    for l in out.splitlines():
        if l.startswith('"') and l.count('|') == 2:
            f, cmd, t = l.strip('"').split('|')
            init = init or f
            graph.setdefault(f, {}).setdefault(cmd, t)
    gen, dist = c.tlc_numbers(out)
    if not graph:
        raise c.Broken('WrapMC printed no transitions')
    return graph, init, dist, gen


class V:
    def __init__(self, name, lang='c', mode='wrap', gen=(), cflags=(), cc=None, separate=False, asxx=False, deflib='deflib', names=True, platform=''):
        self.name, self.lang, self.mode, self.gen, self.cflags = name, lang, mode, list(gen), list(cflags)
        self.cc = cc or ('g++' if lang == 'cxx' or asxx else 'gcc')
        self.separate, self.asxx, self.deflib, self.names = separate, asxx, deflib, names
        self.platform = platform
        self.pfx = 'gdo' if not any(a.startswith('-prefix=') for a in gen) else 'xy_9'


_n = [0]


def build(tool, v, funcs, obj, hooks, seed):
    _n[0] += 1
    w = c.sub(f'w-{v.name}-{_n[0]}')
    rng = random.Random(seed)
    cxx = v.lang == 'cxx'
    U = v.pfx.upper()
    ext = ('.cpp', '.hpp') if cxx else ('.c', '.h')
    with open(os.path.join(w, 'in.h'), 'w') as f:
        f.write(W.input_text(funcs, obj, v.names))
    args = ['-format=' + ('C++' if cxx else 'C'), '-no-date', '-force', '-out=g' + ext[1]]
    if v.separate:
        args.append('-separate')
    if not v.names:
        args.append('-param=create')
    args += v.gen
    r = c.gen(tool, args + ['in.h'], cwd=w)
    if r.returncode:
        raise c.BuildFailure(f'gendlopen {" ".join(args)} failed: ' + r.stderr.decode('utf8', 'replace')
                             + '\n' + W.input_text(funcs, obj, v.names))
    hext = '.cpp' if cxx or v.asxx else '.c'
    prog = W.program(funcs, obj, rng, 'g' + ext[1], hooks, v.names, cxx, v.mode, v.deflib, v.pfx, NV)
    with open(os.path.join(w, 'h' + hext), 'w') as f:
        f.write(prog.replace('@U@', U))
    fl = [x.replace('GDO_', U + '_') for x in [MODES[v.mode]] + v.cflags] + L.DL + ['-I' + L.HARN, '-I.']
    if not any(x.startswith('-O') for x in fl):
        fl.append('-O1')
    # the documented setting is a string literal without the extension added by LIBNAME macros
    fl += L.platform_flags(v.platform, U)
    fl.append(f'-D{U}_DEFAULT_LIB=' + ('L"' if '-D_UNICODE' in v.cflags and v.platform == 'win' else '"') + v.deflib.replace('\\', '\\\\').replace('"', '\\"') + '"')
    fl.append('-Wl,--wrap=atexit')
    pre = d.PRELUDE
    srcs = ['h' + hext]
    if v.separate:
        # the body needs the types of the declarations: they come from a header included up front
        with open(os.path.join(w, 'pre.h'), 'w') as f:
            f.write('#ifndef PRE_H\n#define PRE_H\n' + pre + '#endif\n')
        with open(os.path.join(w, 'h' + hext)) as f:
            t = f.read()
        with open(os.path.join(w, 'h' + hext), 'w') as f:
            f.write(t.replace(pre, '', 1))
        fl += ['-include', 'pre.h']
        body = 'g' + ext[0]
        if v.asxx:
            os.rename(os.path.join(w, body), os.path.join(w, 'gbody.cpp'))
            body = 'gbody.cpp'
        srcs.append(body)
    fk = os.path.join(w, 'fk.o')
    L.fake_loader(fk, v.platform, [], w)
    exe = os.path.join(w, 'h')
    c.compile_c(exe, srcs + [fk], fl, cc=v.cc, cwd=w)
    return exe


def complete(run, lines, rc):
    """did the process do all it was told, or end where ending is an observation?"""
    if not lines:
        return False
    last = lines[-1]
    if '"op":"exit"' in last:
        return rc == 0 and len(lines) == len(run) + 2
    return '"ended":"' in last and '"ended":"ret"' not in last and rc in (1, 90) and len(lines) <= len(run) + 1


def execute(exe, runs):
    log = c.sub('wlog')

    slow = []

    def one(run):
        if len(slow) > 20:
            return run, [], 'timeout', ''
        p = os.path.join(log, f'{random.getrandbits(60):x}')
        try:
            r = c.run([exe], input=('\n'.join(run) + '\n- exit\n').encode(), timeout=(120, 60, 10, 3)[min(3, len(slow))], env={**os.environ, 'FK_LOG': p})
            rc, err = r.returncode, r.stderr.decode('utf8', 'replace')
        except c.subprocess.TimeoutExpired:
            slow.append(1)
            rc, err = 'timeout', ''
        try:
            with open(p) as f:
                lines = f.read().splitlines()
            os.unlink(p)
        except OSError:
            lines = []
        return run, lines, rc, err
    return c.pmap(one, runs)


def judge(chk, items, check, module='WrapTrace', chunk=8000, describe=None):
    """items = [(variant name, key context, exe, runs)]; executes and validates everything"""
    flat = []
    for name, ctx, exe, runs in items:
        for run, lines, rc, err in execute(exe, runs):
            if rc == 99 or rc == 98 and err:
                raise c.Broken(f'harness {name}: {err}')
            if not complete(run, lines, rc):
                run, lines, rc, err = execute(exe, [run])[0]
                if not complete(run, lines, rc):
                    k = max(0, len(lines) - 1)
                    chk.violation(f'{name}:crash', f'{name}: program ended with status {rc} at command '
                                  f'{run[k] if k < len(run) else "exit"!r}: {err[-400:]}',
                                  {'variant': name, 'context': ctx, 'commands': run, 'last events': lines[-3:]})
                    continue
            flat.append((name, ctx, exe, run, lines))
    groups, cur, n = [], [], 0
    for f in flat:
        cur.append(f)
        n += len(f[4])
        if n >= chunk:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)
    res = c.pmap(lambda g: L.validate([l for f in g for l in f[4]], check, 'w', module), groups, jobs=6)
    nev = 0
    bad = set()
    seen = 0          # rejected executions that were looked at
    for g, (ok, at) in zip(groups, res):
        nev += sum(len(f[4]) for f in g)
        rest = g
        while not ok and seen < 6:
            seen += 1
            k = 0
            for j, f in enumerate(rest):
                if at < k + len(f[4]):
                    break
                k += len(f[4])
            name, ctx, exe, run, _ = f
            again = execute(exe, [run])[0]
            ok2, at2 = L.validate(again[1], check, name, module)
            if ok2:
                raise c.Broken(f'{name}: a rejected execution was accepted when repeated')
            cmd = 'start' if at2 == 0 else run[at2 - 1] if at2 <= len(run) else 'exit'
            key = f'{name}:{cmd.split()[1] if " " in cmd else cmd}'
            if key not in bad:
                bad.add(key)
                chk.violation(key, f'{name}: `{cmd}` did what the specification does not allow: {again[1][at2][:700]}',
                              {'variant': name, 'context': ctx, 'commands': run[:at2],
                               'state before': again[1][at2 - 1] if at2 else '', 'rejected event': again[1][at2]})
            rest = rest[j + 1:]
            if not rest or len(bad) > 4:
                break
            ok, at = L.validate([l for f in rest for l in f[4]], check, 'w', module)
    return len(flat), nev
