"""Conformance of generated loader code with spec/Loader.tla."""
import collections, json, os, random, re
import common as c
import genharness as g

DL = ['-D_GNU_SOURCE'] + [f'-Ddl{n}=fk_dl{n}' for n in ('open', 'mopen', 'sym', 'close', 'error', 'info', 'addr')]
HARN = os.path.join(c.VERIF, 'harness')

SYMS = {2: [('gdl_aa', 'f'), ('gdl_ab', 'o')],
        3: [('gdl_aa', 'f'), ('gdl_ab', 'f'), ('gdl_abc', 'o')]}


# ------------------------------------------------------- behaviours of the spec
def mc(cxx, n, objs, rich, win=False, wd='A', src=None):
    """exhaustive exploration; returns (graph, init, states, transitions)"""
    cfg = f'''SPECIFICATION Spec
CONSTANTS N = {n}
 Cxx = {"TRUE" if cxx else "FALSE"}
 Objs = {{{", ".join(map(str, objs))}}}
 Emit = TRUE
 Rich = {rich}
 Win = {"TRUE" if win else "FALSE"}
 Wd = "{wd}"
 Src = "{src or ('info' if win else 'info+addr')}"
VIEW View
INVARIANTS PointersCurrent NoClosedHandle NoLeak QueriesAgree
PROPERTIES FailedKeeps CloseResets NeverSwaps RegOnce
ACTION_CONSTRAINT EmitEdge
'''
    rc, out = c.tlc('LoaderMC', cfg, workers=1)
    if rc != 0 or 'No error has been found' not in out:
        raise c.Broken('LoaderMC failed:\n' + '\n'.join(l for l in out.splitlines() if not l.startswith('"'))[-3000:])
    graph = collections.OrderedDict()
    init = None
    n = 0
    for l in out.splitlines():
        if l.startswith('"') and l.count('|') == 2:
            f, cmd, t = l.strip('"').split('|')
            if init is None:
                init = f
            graph.setdefault(f, {}).setdefault(cmd, t)
            n += 1
    gen, dist = c.tlc_numbers(out)
    if n == 0 or gen == 0:
        raise c.Broken('LoaderMC printed no transitions')
    return graph, init, dist, gen


def tours(graph, init, rng, budget, runlen):
    """command sequences that take the labelled transitions; returns (runs, edges covered, edges)"""
    total = sum(len(v) for v in graph.values())
    todo = {s: list(v) for s, v in graph.items()}
    for v in todo.values():
        rng.shuffle(v)
    left = total
    runs, steps, covered = [], 0, 0
    succ = {s: list(collections.OrderedDict((t, cmd) for cmd, t in v.items()).items()) for s, v in graph.items()}
    while left > 0 and steps < budget:
        run, cur = [], init
        while len(run) < runlen and steps + len(run) < budget:
            if todo.get(cur):
                cmd = todo[cur].pop()
                left -= 1
                covered += 1
                run.append(cmd)
                cur = graph[cur][cmd]
                continue
            # nearest state with untaken transitions
            prev, q, goal = {cur: None}, collections.deque([cur]), None
            while q:
                x = q.popleft()
                if todo.get(x):
                    goal = x
                    break
                for t, cmd in succ.get(x, ()):
                    if t not in prev:
                        prev[t] = (x, cmd)
                        q.append(t)
            if goal is None:
                break
            path = []
            while prev[goal] is not None:
                goal, cmd = prev[goal]
                path.append(cmd)
            for cmd in reversed(path):
                run.append(cmd)
                cur = graph[cur][cmd]
        if not run:
            break
        steps += len(run)
        runs.append(run)
    return runs, covered, total


def walks(graph, init, rng, nruns, runlen):
    runs = []
    keys = {s: list(v) for s, v in graph.items()}
    # group commands by operation, so that operations with many argument variants do not dominate
    groups = {}
    for s, v in keys.items():
        d = {}
        for cmd in v:
            d.setdefault(cmd.split()[1], []).append(cmd)
        groups[s] = list(d.values())
    for _ in range(nruns):
        run, cur = [], init
        for _ in range(runlen):
            gs = groups.get(cur)
            if not gs:
                break
            cmd = rng.choice(rng.choice(gs))
            run.append(cmd)
            cur = graph[cur][cmd]
        runs.append(run)
    return runs


# --------------------------------------------------------------------- variants
class Variant:
    def __init__(self, name, lang='c', gen=(), cflags=(), cc='gcc', separate=False, pfx='gdo', asxx=False, syms=None,
                 platform=''):
        self.name, self.lang, self.gen, self.cflags, self.cc = name, lang, list(gen), list(cflags), cc
        self.separate, self.pfx, self.asxx, self.syms = separate, pfx, asxx, syms
        self.platform = platform


C_VARIANTS = [
    Variant('c'),
    Variant('c-static', cflags=['-DGDO_STATIC']),
    Variant('c-separate', separate=True),
    Variant('c-prefix', gen=['-prefix=Xy-9']),
    Variant('c-as-c++', asxx=True, cc='g++'),
    Variant('c-wrap', cflags=['-DGDO_WRAP_FUNCTIONS']),
    Variant('c-clang-skip-line', gen=['-param=skip', '-line'], cc='clang'),
    Variant('c-separate-line-clang', gen=['-line'], separate=True, cc='clang', cflags=['-O2']),
]
CXX_VARIANTS = [
    Variant('c++', 'cxx', cc='g++'),
    Variant('c++-separate', 'cxx', cc='g++', separate=True),
    Variant('c++-prefix', 'cxx', gen=['-prefix=Xy-9'], cc='g++'),
    Variant('c++-wrap', 'cxx', cc='g++', cflags=['-DGDO_WRAP_FUNCTIONS']),
    Variant('c++-clang', 'cxx', cc='clang++', cflags=['-O2'], gen=['-line']),
]


PLATFORM = {'': [],
            'win': ['-DFK_WIN'], 'dlfcn': ['-DGDO_USE_DLOPEN', '-DFK_DLFCN'],
            'other': ['-DFK_OTHER'], 'bsd': ['-DFK_BSD'], 'sun': ['-DFK_SUN'], 'macos': ['-DFK_MACOS'], 'android': ['-DFK_ANDROID'], 'aix': ['-DFK_AIX', '-I' + os.path.join(HARN, 'aix')]}
WIN_C = [
    Variant('win-c', platform='win'),
    Variant('win-c-unicode', platform='win', cflags=['-D_UNICODE', '-DUNICODE']),
    Variant('win-c-convert', platform='win', cflags=['-DGDO_CONVERT_FILENAME']),
    Variant('win-c-static', platform='win', cflags=['-DGDO_STATIC', '-DGDO_CONVERT_FILENAME']),
    Variant('win-c-separate-prefix', platform='win', separate=True, gen=['-prefix=Xy-9'], cflags=['-D_UNICODE', '-DUNICODE']),
    Variant('win-c-as-c++', platform='win', asxx=True, cc='g++', cflags=['-D_UNICODE', '-DUNICODE']),
    Variant('win-c-clang-skip', platform='win', gen=['-param=skip', '-line'], cc='clang', cflags=['-O2']),
]
WIN_CXX = [
    Variant('win-c++', 'cxx', platform='win', cc='g++'),
    Variant('win-c++-unicode', 'cxx', platform='win', cc='clang++', separate=True, cflags=['-D_UNICODE', '-DUNICODE']),
    Variant('win-c++-prefix', 'cxx', platform='win', cc='g++', gen=['-prefix=Xy-9']),
]
OTHER_C = [
    Variant('dlfcn-win32-c', platform='dlfcn'),
    Variant('dladdr-c', platform='other'),
    Variant('aix-c', platform='aix'),
    Variant('freebsd-c', platform='bsd', separate=True),
    Variant('solaris-c', platform='sun', cc='clang'),
    Variant('dlfcn-win32-c-unicode', platform='dlfcn', separate=True, cflags=['-D_UNICODE', '-DUNICODE']),
    Variant('dladdr-c-as-c++', platform='other', asxx=True, cc='g++'),
    Variant('aix-c-static', platform='aix', cflags=['-DGDO_STATIC'], cc='clang', gen=['-prefix=Xy-9']),
]
OTHER_CXX = [
    Variant('dlfcn-win32-c++', 'cxx', platform='dlfcn', cc='g++'),
    Variant('dladdr-c++', 'cxx', platform='other', cc='g++'),
    Variant('aix-c++', 'cxx', platform='aix', cc='g++'),
    Variant('freebsd-c++', 'cxx', platform='bsd', cc='clang++'),
    Variant('solaris-c++', 'cxx', platform='sun', cc='g++', separate=True),
    Variant('dlfcn-win32-c++-separate', 'cxx', platform='dlfcn', cc='clang++', separate=True, gen=['-prefix=Xy-9']),
    Variant('aix-c++-clang', 'cxx', platform='aix', cc='clang++', cflags=['-O2']),
]


def source(platform):
    """where library paths come from there"""
    return {'win': 'info', 'dlfcn': 'info+addr', 'other': 'addr', 'aix': 'query'}.get(platform, 'info+addr')


def wide(v):
    """how names given to the C functions reach the system"""
    return 'W' if v.platform == 'win' and any('UNICODE' in x or 'CONVERT' in x for x in v.cflags) else 'A'


def adapt(runs, platform, cxx):
    """commands of the model, as the platform has them: no namespaces except on Solaris, paths that no buffer can hold"""
    if platform in ('', 'win', 'sun'):
        return runs
    out = []
    for r in runs:
        a = []
        for cmd in r:
            if platform in ('aix', 'dlfcn'):
                cmd = cmd.replace('plen=8192', 'plen=33000' if platform == 'dlfcn' and not cxx else 'plen=30000')
            if cmd.split()[1] in ('load_args', 'new'):
                cmd = ' '.join(cmd.split()[:-1] + ['0'])
            a.append(cmd)
        out.append(a)
    return out


_PIECES = ['a', 'lib', 'Z9', '.', '-', '_', '.so', '.1', '/', '/', '\\', '\\', '..', '%20', '%25', '%c3%a9', '%22', "'", '+', '~', ':', '=', '%40', '$', '(', ')', '*', '?', '#', ';', '%09', '%e2%82%ac', 's', 'd']
FLAGS = [0, 1, 2, 8, 256, 257, 258, 2048, 4097, 8193]


def name(rng):
    return ''.join(rng.choice(_PIECES) for _ in range(rng.choice([1, 2, 3, 5, 9, 20, 60])))


def renamed(runs, rng):
    """the names and flags of the model replaced by arbitrary ones"""
    out = []
    for r in runs:
        m = {x: name(rng) for x in ('libone', 'libtwo')}
        a = []
        for cmd in r:
            t = [m.get(x, x) for x in cmd.split()]
            if t[1] in ('load_args', 'new') and '258' in t:
                t[t.index('258')] = str(rng.choice(FLAGS))
            a.append(' '.join(t))
        out.append(a)
    return out


def platform_flags(platform, U):
    """flags with which generated code is compiled for another platform"""
    fl = [x.replace('GDO_', U + '_') for x in PLATFORM[platform]]
    if platform:
        fl += ['-include', os.path.join(HARN, 'win', 'winpre.h')]
    if platform in ('win', 'dlfcn'):
        fl.append('-I' + os.path.join(HARN, 'win'))
    return fl


def fake_loader(obj, platform, flags, cwd):
    src = {'win': 'fakewin.c', 'dlfcn': 'fakewin.c', 'aix': 'fakeaix.c'}.get(platform, 'fakedl.c')
    c.compile_c(obj, [os.path.join(HARN, src)], DL + ['-c', '-O1', '-I' + HARN] + flags
                + (['-DFK_DLFCN'] if platform == 'dlfcn' else []), cwd=cwd)


def build_variant(tool, v, syms, deflib='deflib', asan=False):
    """generate, compile and link one harness; returns the executable"""
    pfx = 'gdo' if not any(a.startswith('-prefix=') for a in v.gen) else 'xy_9'
    U = pfx.upper()
    w = c.sub('v-' + v.name + '-' + format(abs(hash((tuple(syms), deflib, asan))), 'x'))
    exe = os.path.join(w, 'h')
    if os.path.exists(exe):
        return exe
    with open(os.path.join(w, 'in.h'), 'w') as f:
        f.write(g.protos(syms))
    ext = ('.c', '.h') if v.lang == 'c' else ('.cpp', '.hpp')
    args = ['-format=' + ('C' if v.lang == 'c' else 'C++'), '-no-date', '-force', '-out=g' + ext[1]]
    if v.separate:
        args.append('-separate')
    r = c.gen(tool, args + v.gen + ['in.h'], cwd=w)
    if r.returncode:
        raise c.BuildFailure(f'gendlopen {" ".join(args + v.gen)} failed: ' + r.stderr.decode('utf8', 'replace'))
    hext = '.cpp' if v.lang == 'cxx' or v.asxx else '.c'
    with open(os.path.join(w, 'h' + hext), 'w') as f:
        f.write(g.c_harness(syms, 'g' + ext[1], pfx) if v.lang == 'c' else g.cxx_harness(syms, 'g' + ext[1], pfx))
    flags = [x.replace('GDO_', U + '_') for x in v.cflags] + DL + ['-I' + HARN, '-I.', '-O1'] if '-O2' not in v.cflags \
        else [x.replace('GDO_', U + '_') for x in v.cflags] + DL + ['-I' + HARN, '-I.']
    flags += platform_flags(v.platform, U)
    if v.lang == 'c':
        flags += [f'-D{U}_DEFAULT_LIB={"L" if "-D_UNICODE" in v.cflags and v.platform == "win" else ""}"{deflib}"']
    flags.append('-Wl,--wrap=atexit')
    if asan:
        flags += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-g']
    fk = os.path.join(w, 'fk.o')
    fake_loader(fk, v.platform, (['-fsanitize=address'] if asan else []), w)
    srcs = ['h' + hext]
    if v.separate:
        body = 'g' + ext[0]
        if v.asxx:
            os.rename(os.path.join(w, body), os.path.join(w, 'gbody.cpp'))
            body = 'gbody.cpp'
        srcs.append(body)
    c.compile_c(exe, srcs + [fk], flags, cc=v.cc, cwd=w)
    return exe


def execute(exe, runs):
    """run all command sequences, each in a fresh process; returns list of event lines lists"""
    slow = []

    def one(run):
        if len(slow) > 20:
            return run, [], 'timeout', ''
        try:
            r = c.run([exe], input=('\n'.join(run) + '\n- exit\n').encode(), timeout=(120, 60, 10, 3)[min(3, len(slow))],
                      env={**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0', 'UBSAN_OPTIONS': 'print_stacktrace=0'})
        except c.subprocess.TimeoutExpired:
            slow.append(1)
            return run, [], 'timeout', ''
        lines = r.stdout.decode('utf8', 'replace').splitlines()
        return run, lines, r.returncode, r.stderr.decode('utf8', 'replace')
    return c.pmap(one, runs)


def validate(events, check, variant, module='LoaderTrace', extra_env=None, cfgx='', exact=True):
    """TLC on a list of event lines; returns (accepted, index of the rejected line or None)"""
    p = os.path.join(c.scratch(), f'trace-{random.getrandbits(60):x}.ndjson')
    with open(p, 'w') as f:
        f.write('\n'.join(events) + '\n')
    cfg = 'SPECIFICATION Spec\nPOSTCONDITION Accepted\n' + cfgx
    env = {'TRACE': p, 'CHECK': check, 'VARIANT': variant}
    env.update(extra_env or {})
    rc, out = c.tlc(module, cfg, workers=1, env=env)
    os.unlink(p)
    gen, dist = c.tlc_numbers(out)
    if rc == 0 and 'No error has been found' in out:
        if dist < len(events) + 1 or exact and dist != len(events) + 1:
            raise c.Broken(f'{module}: {dist} states for {len(events)} lines')
        return True, None
    m = re.search(r'"REJECTED at line", (\d+)', out)
    if not m:
        raise c.Broken(f'{module} failed:\n' + out[-3000:])
    return False, int(m.group(1)) - 1


def check_runs(chk, exe, vname, runs, check, module='LoaderTrace', chunk=12000, extra_env=None):
    """execute and validate; report violations; returns (#runs validated, #events)"""
    res = execute(exe, runs)
    groups, cur, n = [], [], 0
    for run, lines, rc, err in res:
        ok = rc == 0 and lines and '"op":"exit"' in lines[-1] and len(lines) == len(run) + 2
        if not ok:
            again = execute(exe, [run])[0]
            if again[2] == 99 or again[2] == 98 and again[3]:
                raise c.Broken(f'harness: {again[3]}')
            if again[2] != 0 or len(again[1]) != len(run) + 2:
                k = max(0, len(again[1]) - 1)
                chk.violation(f'{vname}:crash', f'{vname}: generated code ended with status {again[2]} in the middle of a '
                              f'call sequence (command {run[k] if k < len(run) else "exit"!r}): {again[3][-600:]}',
                              {'variant': vname, 'commands': run, 'last events': again[1][-3:]})
                return 0, 0
            lines = again[1]
        cur.append((run, lines))
        n += len(lines)
        if n >= chunk:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)

    def val(group):
        ev = [l for _, ls in group for l in ls]
        return validate(ev, check, vname, module, extra_env)
    results = c.pmap(val, groups, jobs=6)
    nev = 0
    nrun = 0
    for group, (ok, at) in zip(groups, results):
        nev += sum(len(ls) for _, ls in group)
        nrun += len(group)
        if ok:
            continue
        k = 0
        for run, lines in group:
            if at < k + len(lines):
                break
            k += len(lines)
        # repeat: execute the sequence again and judge it alone
        again = execute(exe, [run])[0]
        ok2, at2 = validate(again[1], check, vname, module, extra_env)
        if ok2:
            raise c.Broken(f'{vname}: a rejected execution was accepted when repeated')
        cmd = run[at2 - 1] if 0 < at2 <= len(run) else ('start' if at2 == 0 else 'exit')
        chk.violation(f'{vname}:{" ".join(cmd.split()[1:2])}',
                      f'{vname}: after {at2 - 1 if at2 else 0} accepted calls, `{cmd}` did what the specification does not allow: '
                      + again[1][at2][:700],
                      {'variant': vname, 'commands up to the violation': run[:at2], 'state before': again[1][at2 - 1] if at2 else '',
                       'rejected event': again[1][at2]})
        return nrun, nev
    return nrun, nev
