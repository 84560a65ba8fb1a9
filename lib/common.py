"""Shared machinery of the checks: building the tool from /repo, running TLC, reporting."""
import atexit, concurrent.futures, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GDL_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = min(8, os.cpu_count() or 4)

SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


class Broken(Exception):
    """the check itself could not do its work"""


class BuildFailure(Exception):
    """code generated by the tool did not build"""


_scratch = None


def scratch():
    """a scratch directory removed at exit"""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='gdlv-')
        pid = os.getpid()

        def rm():
            if os.getpid() == pid and not os.environ.get('GDL_KEEP'):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


def sub(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


def run(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.PIPE)
    kw.setdefault('timeout', 600)
    if 'input' not in kw and 'stdin' not in kw:
        kw['stdin'] = subprocess.DEVNULL
    return subprocess.run(cmd, **kw)


def pmap(fn, items, jobs=JOBS):
    ex = concurrent.futures.ThreadPoolExecutor(jobs)
    try:
        return list(ex.map(fn, items))
    except BaseException:
        ex.shutdown(wait=False, cancel_futures=True)
        raise
    finally:
        ex.shutdown(wait=False)


# ------------------------------------------------------------------ the tool
def tree_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def src_files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        out += [os.path.join(d, f) for f in fs]
    return out


def cache_dir():
    d = os.path.join(VERIF, '.cache')
    try:
        os.makedirs(d, exist_ok=True)
        return d
    except OSError:
        return sub('cache')


def build_tool(flags=('-O1',), cxx='g++', cc='gcc', tag='plain'):
    """build gendlopen from /repo's working tree; returns the path of the executable"""
    key = tree_hash(src_files(), repr((tuple(flags), cxx, cc, 'v3')))
    base = cache_dir()
    dst = os.path.join(base, f'tool-{tag}-{key}')
    exe = os.path.join(dst, 'gendlopen')
    if os.access(exe, os.X_OK):
        return exe
    src = os.path.join(REPO, 'src')
    w = tempfile.mkdtemp(prefix='build-', dir=scratch())

    def must(cmd, **kw):
        r = run(cmd, cwd=w, **kw)
        if r.returncode:
            raise Broken('building the tool failed: ' + ' '.join(cmd) + '\n' + r.stderr.decode('utf8', 'replace')[-3000:])
        return r

    must([cc, '-O1', '-o', 'gtd', os.path.join(src, 'gen_templates_data.c')])
    must(['./gtd', os.path.join(src, 'templates'), 'templates_data.cpp'])
    units = sorted(os.path.join(src, f) for f in os.listdir(src)
                   if f.endswith('.cpp')) + ['templates_data.cpp', os.path.join(src, 'lex.yy.c')]

    def comp(u):
        o = os.path.basename(u) + '.o'
        if u.endswith('.c'):
            must([cc, '-I' + src, *flags, '-w', '-c', u, '-o', o])
        else:
            must([cxx, '-std=c++20', '-I' + src, *flags, '-w', '-c', u, '-o', o])
        return o
    objs = pmap(comp, units)
    must([cxx, *flags, '-o', 'gendlopen', *objs])
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=base)
    shutil.copy2(os.path.join(w, 'gendlopen'), tmp)
    try:
        os.rename(tmp, dst)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.access(exe, os.X_OK):
            return os.path.join(w, 'gendlopen')
    # keep the cache small
    olds = sorted((os.path.join(base, d) for d in os.listdir(base) if d.startswith('tool-')),
                  key=lambda p: os.path.getmtime(p))
    for o in olds[:-12]:
        shutil.rmtree(o, ignore_errors=True)
    return exe


def gen(tool, args, cwd=None, inp=None, timeout=60):
    """run the tool; stdin is inp (bytes or str) or empty"""
    if isinstance(inp, str):
        inp = inp.encode()
    return run([tool, *args], cwd=cwd or scratch(), input=inp if inp is not None else b'', timeout=timeout)


def compile_c(out, srcs, flags=(), cc='gcc', cwd=None):
    r = run([cc, '-w', '-o', out, *srcs, *flags], cwd=cwd)
    if r.returncode:
        r = run([cc, '-w', '-o', out, *srcs, *flags], cwd=cwd)   # once more, in case memory was short
    if r.returncode:
        raise BuildFailure(' '.join([cc, '-o', out, *srcs, *flags]) + '\n' + r.stderr.decode('utf8', 'replace')[:3000])


# ----------------------------------------------------------------------- TLC
def tlc(module, cfg, workers=1, timeout=800, env=None, extra=(), heap='3g', deadlock=False):
    """run TLC on spec/<module>.tla with configuration text cfg; returns (rc, output)"""
    w = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    with open(os.path.join(w, 'm.cfg'), 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Djava.io.tmpdir=' + w, '-DTLA-Library=' + SPEC, '-cp', CP,
           'tlc2.TLC', '-metadir', os.path.join(w, 'meta'), '-workers', str(workers), '-noGenerateSpecTE',
           '-config', os.path.join(w, 'm.cfg')]
    if not deadlock:
        cmd.append('-deadlock')
    cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, cwd=w, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f'TLC timed out on {module}')
    out = r.stdout.decode('utf8', 'replace')
    shutil.rmtree(w, ignore_errors=True)
    return r.returncode, out


def tlc_numbers(out):
    """(states generated, distinct states)"""
    import re
    m = None
    for m in re.finditer(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))


# -------------------------------------------------------------------- checks
class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = []
        self.rng = random.Random(SEED * 1000003 + int(prop[1:]))

    def violation(self, key, what, replay):
        """key identifies the failing input/history; replay is a dict or text saved to a file"""
        for k in self.known:
            if k['key'] == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)
                return
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f'{self.prop}-{len(self.violations) + 1}.txt')
        with open(p, 'w') as f:
            f.write(f'property {self.prop}\nkey {key}\n{what}\n\n')
            f.write(replay if isinstance(replay, str) else json.dumps(replay, indent=1, default=str))
            f.write('\n')
        self.violations.append((key, what, p))
        print(f'# {self.prop}: {what[:2000]}')
        print(f'VIOLATION property={self.prop} replay={p}', flush=True)
        if len(self.violations) >= 25 or (not THOROUGH and time.time() - self.t0 > 240):
            raise Enough()

    def finish(self):
        for k in self.known:
            if k['key'] not in self.known_hit and k.get('always'):
                print(f"# known finding of {self.prop} did not occur in this run: {k['what']}")
        ev = {'property': self.prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f'.{self.prop}.{os.getpid()}.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(tmp, os.path.join(d, self.prop + '.json'))
        print(f'# {self.prop}: {"FAILED" if self.violations else "ok"} in {ev["wall_s"]} s; '
              + ', '.join(f'{k}={v}' for k, v in self.cov.items() if isinstance(v, (int, float, bool))))
        return 1 if self.violations else 0


class Enough(Exception):
    """violations were reported; looking for more would only take time"""


def load_known(prop):
    p = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'):
                continue
            d = json.loads(l)
            if d['property'] == prop:
                out.append(d)
    return out


def main(fn, prop, level):
    """run fn(check) and exit with the right status"""
    chk = Check(prop, level)

    def late(*_):
        # out of time while violations are sorted out
        if chk.violations:
            raise Enough()
    if not THOROUGH:
        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, 420, 30)
    try:
        fn(chk)
    except Enough:
        chk.cov.setdefault('explanation', 'ended early: violations were found')
    except BuildFailure as e:
        chk.violation('build', 'code generated by the tool does not build: ' + str(e)[:1500], str(e))
        chk.cov.setdefault('explanation', 'generated code did not build')
    except Broken as e:
        if chk.violations:
            sys.exit(chk.finish())
        print(f'# check {prop} could not run: {e}', file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(chk.finish() if chk.violations else 2)
    sys.exit(chk.finish())
