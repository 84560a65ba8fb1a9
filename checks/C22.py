#!/usr/bin/env python3
"""C22: what the output depends on: histories of runs of the real tool, against spec/Determinism.tla (judged by DeterminismTrace.tla)"""
import hashlib, os, re, shutil, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import front as F
from manyrun import many

DATE = re.compile(rb' on \w{3} \d{4}-\d\d-\d\d \d\d:\d\d:\d\d [+-]\d{4}\.')
TEXTS = {
    'd1': 'int foo(int a, const char *b);\nchar *bar(void);\nextern int obj;\nint va(const char *f, ...);\n',
    'd2': '%option D=X=1 include=y.h\n#include <a.h>\n/* c */ void (*sig)(int n, void (*h)(int));\nint arr[4];\n%option library=ext:zz\n\nstruct s *one(struct s *p);\n',
    'cr': '\r\n// comment\r\nint aaa(int a);\r\nint aab(\r\nint b);\r\n%option D=Q\r\n',
    'big': ''.join(f'int function_number_{k}(int a, char *b, struct s *c);\nextern const char *object_{k};\n' for k in range(300)),
    'long': 'int ' + 'x' * 9000 + '(int ' + 'y' * 9000 + ');\nint b(int ' + ','.join(f'a{k}' for k in range(1)) + ');\n' + '/*' + '-' * 70000 + '*/int c;',
}
AST = ("TranslationUnitDecl 0x1 <<invalid sloc>> <invalid sloc>\n"
       "|-FunctionDecl 0x2 <a.h:1:1, col:20> col:5 foo 'int (int, const char *)'\n"
       "| |-ParmVarDecl 0x3 <col:9, col:13> col:13 a 'int'\n"
       "| `-ParmVarDecl 0x4 <col:16, col:28> col:28 b 'const char *'\n"
       "|-VarDecl 0x5 <line:2:1, col:12> col:12 obj 'int' extern\n"
       "`-FunctionDecl 0x6 <line:3:1, col:20> col:5 fob 'int (void)'\n")
TEXTS['ast'] = AST
ENVS = {'e0': (), 'tz': ('TZ=Asia/Tokyo', 'LANG=de_DE.UTF-8', 'LC_ALL=C.UTF-8'), 'odd': ('HOME=/nonexistent', 'TMPDIR=/nonexistent', 'POSIXLY_CORRECT=1', 'COLUMNS=1', 'TERM=dumb', 'TZ=:bad/zone'),
        'locale': ('LC_ALL=tr_TR.UTF-8', 'LC_CTYPE=POSIX', 'GDO=1', 'MALLOC_PERTURB_=165'), 'perturb': ('MALLOC_PERTURB_=90', 'MALLOC_ARENA_MAX=1')}


class Lab:
    def __init__(self, ck):
        self.ck = ck
        os.chmod(c.scratch(), 0o711)
        t = F.static_tool()
        d = c.sub('bin')
        os.chmod(d, 0o755)
        shutil.copy2(t, d + '/gendlopen')
        os.chmod(d + '/gendlopen', 0o755)
        self.tool = d + '/gendlopen'
        self.dump = os.path.join(c.sub('dumps'), 'd')
        os.chmod(os.path.dirname(self.dump), 0o755)
        r = c.run([self.tool, '-dump-templates=' + self.dump])
        if r.returncode:
            ck.violation('dump', 'the templates cannot be dumped: ' + r.stderr.decode('latin-1'), {})
        os.chmod(self.dump, 0o755)
        for f in os.listdir(self.dump):
            os.chmod(os.path.join(self.dump, f), 0o644)
        # the dump is the same again, over an older one and from another directory
        first = {f: open(os.path.join(self.dump, f), 'rb').read() for f in os.listdir(self.dump)}
        for a in (self.dump + '2', self.dump + '2/', 'd3'):
            c.run([self.tool, '-dump-templates=' + a], cwd=os.path.dirname(self.dump), env=dict(os.environ, LANG='C', TZ='UTC'))
            a = os.path.join(os.path.dirname(self.dump), a)
            if not os.path.isdir(a) or {f: open(os.path.join(a, f), 'rb').read() for f in os.listdir(a)} != first:
                ck.violation('dump twice', 'dumping the templates again gives something else', {'dir': a})
        self.w = c.sub('det')
        self.n = 0

    def fresh(self):
        d = os.path.join(self.w, f'h{self.n}')
        self.n += 1
        os.makedirs(d + '/in')
        os.makedirs(d + '/run/sub')
        for k, t in TEXTS.items():
            with open(f'{d}/in/{k}', 'wb') as f:
                f.write(t.encode())
            os.symlink(f'../in/{k}', f'{d}/run/link-{k}')
        with open(d + '/in/tpl', 'w') as f:
            f.write('T %%symbol%% gdo_x\nF %%type%% %%func_symbol%%(%%args%%) { %%return%% %%param_names%% }\nGDO_\n')
        if os.getuid() == 0:
            for x in (d, d + '/run', d + '/run/sub'):
                os.chown(x, 65534, 65534)
        return d

    def step(self, d, r):
        """the job of run r in the directory"""
        a = ['-format=' + r['fmt']] + r['rest'].split()
        a += ['-separate'] if r['sep'] else []
        a += ['-line'] if r['line'] else []
        a += [] if r['once'] else ['-no-pragma-once']
        a += ['-template=../in/tpl'] if r['mode'] == 'template' else ['-print-symbols'] if r['mode'] == 'symbols' else []
        if r['tpl'] != 'builtin':
            a += ['-templates-path=' + self.dump + ('/' if r['tpl'] == 'dump/' else '')]
            r['tpl'] = 'dump'
        a += ['-force']
        if r['store'] != 'stdout':
            a += ['-out=' + {'file': '', 'sub': 'sub/', 'abs': d + '/run/', 'dot': './'}[r['store']] + r['name']]
        a += [{'file': '../in/' + r['decls'], 'abs': d + '/in/' + r['decls'], 'link': 'link-' + r['decls'], 'stdin': '-', 'dev': '/dev/stdin', 'pipe': '-', 'fifo': 'fifo'}[r['feed']]]
        inp = TEXTS[r['decls']].encode() if r['feed'] in ('stdin', 'dev', 'pipe', 'fifo') else b'int not_this_one(void);\n'
        return a, inp, {'cwd': d + '/run', 'env': ENVS[r['env']]}

    def snap(self, d):
        out = {}
        for b, ds, fs in os.walk(d + '/run'):
            for f in fs:
                p = os.path.join(b, f)
                if not os.path.islink(p) and not os.path.basename(p) == 'fifo':
                    out[os.path.relpath(p, d + '/run')] = open(p, 'rb').read()
        return out


def slow(tool, job, how):
    """feeds the input in small pieces"""
    a, inp, ext = job
    cwd = ext['cwd']
    env = dict(os.environ)
    env.update(x.split('=', 1) for x in ext['env'])
    if how == 'fifo' and not os.path.exists(cwd + '/fifo'):
        os.mkfifo(cwd + '/fifo', 0o666)
    p = subprocess.Popen([tool] + a, cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

    def feed():
        try:
            f = open(cwd + '/fifo', 'wb', buffering=0) if how == 'fifo' else p.stdin
            n = max(1, len(inp) // 13)
            for k in range(0, len(inp), n):
                f.write(inp[k:k + n])
                f.flush()
                time.sleep(.004)
            f.close()
        except (BrokenPipeError, OSError):
            pass
    th = threading.Thread(target=feed, daemon=True)
    th.start()
    so = []
    t2 = threading.Thread(target=lambda: so.append(p.stdout.read()))
    t2.start()
    se = p.stderr.read()
    p.wait(timeout=60)
    t2.join()
    return p.returncode, so[0], se


def digest(b):
    m, n = DATE.subn(b' on DATE.', b)
    return hashlib.sha256(m).hexdigest()[:24], n


def execute(lab, hists):
    """hists: lists of runs; -> list of (events, jobs)"""
    dirs = [lab.fresh() for _ in hists]
    evs = [[] for _ in hists]
    for k in range(max(map(len, hists))):
        act = [i for i in range(len(hists)) if len(hists[i]) > k]
        before = {i: lab.snap(dirs[i]) for i in act}
        jobs = {i: lab.step(dirs[i], hists[i][k]) for i in act}
        quick = [i for i in act if hists[i][k]['feed'] not in ('pipe', 'fifo')]
        res = dict(zip(quick, many(lab.tool, [jobs[i] for i in quick])))
        rest = [i for i in act if i not in res]
        res.update(zip(rest, c.pmap(lambda i: slow(lab.tool, jobs[i], hists[i][k]['feed']), rest, c.JOBS)))
        for i in act:
            r, (st, so, se) = hists[i][k], res[i]
            now = lab.snap(dirs[i])
            if F.crash(st):
                lab.ck.violation('crash ' + str(jobs[i][0]), f'the tool ended with status {st}: {jobs[i][0]}', {'args': jobs[i][0], 'stderr': se[-300:].decode('latin-1')})
                continue
            out, dates = {}, 0
            base = ('sub/' if r['store'] == 'sub' else '') + r['name']
            if r['store'] == 'stdout' or r['mode'] == 'symbols':
                used = {'single': so}
                names = []
            else:
                ext = 'cpp' if r['fmt'] == 'c++' else 'c'
                split = r['mode'] == 'generate' and r['sep'] and 'minimal' not in r['fmt']
                names = [base] + ([os.path.splitext(base)[0] + '.' + ext] if split else [])
                used = {p: now[f] for p, f in zip(['header', 'body'] if split else ['single'], names) if f in now}
                if so:
                    used['stray'] = so
            for f in sorted(set(before[i]) | set(now)):
                if f not in names and before[i].get(f) != now.get(f):
                    used['stray'] = (f + ' changed').encode()
            for p, b in used.items():
                out[p], n = digest(b)
                dates += n
            evs[i].append(({'r': r, 'out': out, 'st': 0 if st == 0 else 1, 'dates': dates, 'dated': '-no-date' not in r['rest'].split()}, jobs[i][0], se))
    for d in dirs:
        shutil.rmtree(d)
    return evs


def judge(ck, lab, hists, what):
    ck_n = 0
    # all runs on the same declarations are judged together
    groups = {}
    for b in range(0, len(hists), 4000):
        for h in execute(lab, hists[b:b + 4000]):
            for e in h:
                groups.setdefault((e[0]['r']['decls'], e[0]['r']['mode'], e[0]['r']['fmt'], e[0]['r']['rest']), []).append((e, [x[1] for x in h]))
    # groups with few runs are packed together
    packs = sorted(groups.values(), key=len)
    bins = [[] for _ in range(max(1, min(c.JOBS, sum(map(len, packs)) // 300 + 1)))]
    for p in reversed(packs):
        min(bins, key=len).extend(p)

    def one(b):
        return F.judge([x[0][0] for x in b], 'DeterminismTrace', jobs=1)[0] if b else []
    for b, bad in zip(bins, c.pmap(one, bins, c.JOBS)):
        for k, why in bad[:6]:
            (e, a, se), h = b[k]
            ck.violation(f'{why} {e["r"]}', f'{what}: {why}: {" ".join(a)} (input {e["r"]["decls"]}, fed as {e["r"]["feed"]}, environment {ENVS[e["r"]["env"]]})',
                         {'reason': why, 'args': a, 'history': h, 'run': e['r'], 'input': TEXTS[e['r']['decls']][:2000], 'stderr': se[-300:].decode('latin-1'), 'event': e})
        ck_n += len(b)
    return ck_n


LINKTEXT = 'int foo(int a, const char *b);\nchar *bar(void);\nextern int obj;\n'
LIBSRC = 'int foo(int a, const char *b) { return a + b[0]; }\nchar *bar(void) { return "bar"; }\nint obj = 7;\n'
C_CLIENT = r"""
#include <stdio.h>
#include "gdo.h"
static const char *e(void) { const char *p = gdo_last_error(); return p ? (p[0] ? "message" : "") : "null"; }
#define T(x) printf("%s = %d, loaded %d %d %d %d, error %s\n", #x, (int)(x), gdo_lib_is_loaded(), gdo_all_symbols_loaded(), gdo_no_symbols_loaded(), gdo_any_symbol_loaded(), e())
#ifdef GDO_DEFAULT_LIB
# define DEF T
#else
# define DEF(x) puts("no default")
#endif
int main(void)
{
    T(gdo_enable_autorelease()); T(gdo_load_lib_name("./nolib.so")); DEF(gdo_load_lib()); T(gdo_load_all_symbols()); T(gdo_free_lib());
    T(gdo_load_lib_name("./libx.so")); T(gdo_load_symbol(GDO_LOAD_bar)); T(gdo_load_symbol_name("foo")); T(gdo_load_symbol_name("nope")); T(gdo_load_symbol(99));
    T(gdo_load_all_symbols()); T(gdo_load_lib_name_and_symbols("./libx.so"));
    printf("%d %s %d\n", foo(1, "a"), bar(), obj);
    puts(gdo_library_path() ? "path" : "no path");
    T(gdo_free_lib()); T(gdo_load_lib_args("./libx.so", GDO_DEFAULT_FLAGS, false)); gdo_force_free_lib(); T(0); T(gdo_load_lib_name_and_symbols("./libx.so")); DEF(gdo_load_lib_and_symbols());
    return 0;
}
"""
P_CLIENT = r"""
#include <stdio.h>
#include "gdo.h"
int main(void)
{
    const char *l[] = { "./libx.so", "./nolib.so", "./libx.so" };
    gdo_plugin_t *p = gdo_load_plugins(l, 3);
    size_t i;
    for (i = 0; i < p->num; i++) {
        printf("%s %d %d", p->list[i].filename, p->list[i].handle != 0, p->list[i].ptr.foo != 0);
        if (p->list[i].handle) printf(" %d %s %d", p->list[i].ptr.foo(1, "a"), p->list[i].ptr.bar(), *p->list[i].ptr.obj);
        puts("");
    }
    gdo_release_plugins(p);
    return 0;
}
"""
X_CLIENT = r"""
#include <cstdio>
#include "gdo.hpp"
#define T(x) std::printf("%s = %d, loaded %d %d %d %d, error %d\n", #x, (int)(x), gdo::dl::lib_loaded(), l.all_symbols_loaded(), l.no_symbols_loaded(), l.any_symbol_loaded(), l.error().empty())
int main()
{
    {
        gdo::dl l;
        T(l.load()); T(l.load("./nolib.so")); T(l.load_all_symbols()); T(l.load("./libx.so")); T(l.load_symbol("bar")); T(l.load_symbol("nope")); T(l.load_symbol(99)); T(l.load_all_symbols());
        std::printf("%d %s %d %d\n", foo(1, "a"), bar(), obj, (int)l.library_path().empty());
        T(l.free()); T(l.free());
    }
    gdo::dl l("./libx.so");
    T(l.load_lib_and_symbols()); T(l.free(true)); std::puts(l.filename().c_str());
    return 0;
}
"""


def linked(ck, lab):
    """programs made with a single file and with -separate do the same"""
    w = c.sub('linked')
    open(w + '/in.h', 'w').write(LINKTEXT)
    open(w + '/unnamed.h', 'w').write(LINKTEXT.replace('int a, const char *b', 'int, const char *'))
    open(w + '/x.c', 'w').write(LIBSRC)
    c.compile_c(w + '/libx.so', ['x.c'], ['-shared', '-fPIC'], cwd=w)
    jobs = []
    for fmt, src in (('c', C_CLIENT), ('plugin', P_CLIENT), ('c++', X_CLIENT)):
        for rest in ['', '-param=create', '-library=./libx.so', '-line', '-no-pragma-once -param=skip'] + (['-library=nq:"./libx.so" -line', '-prefix=gdo -D GDO_ENABLE_AUTOLOAD=1 -library=./libx.so'] if c.THOROUGH else []):
            for sep in (False, True):
                jobs.append((fmt, src, rest, sep))

    def one(a):
        k, (fmt, src, rest, sep) = a
        d = f'{w}/{k}'
        os.mkdir(d)
        os.symlink('../libx.so', d + '/libx.so')
        cxx = fmt == 'c++'
        r = c.run([lab.tool, '-format=' + fmt, '-out=gdo.' + ('hpp' if cxx else 'h'), '../unnamed.h' if 'create' in rest else '../in.h'] + rest.split() + (['-separate'] if sep else []), cwd=d)
        m, b = ('m.cpp', 'gdo.cpp') if cxx else ('m.c', 'gdo.c')
        open(f'{d}/{m}', 'w').write(src)
        # another part of the program that includes the header
        open(f'{d}/o.{m[2:]}', 'w').write(f'#include "gdo.{"hpp" if cxx else "h"}"\n')
        if r.returncode == 0:
            r = c.run(['g++' if cxx else 'gcc', '-w', '-O1', '-o', 'm', m] + ([b, 'o.' + m[2:]] if sep else []) + ['-ldl'], cwd=d)
        if r.returncode == 0:
            r = c.run(['./m'], cwd=d)
        q = {'decls': 'linked', 'fmt': fmt, 'sep': sep, 'line': '-line' in rest, 'once': '-once' not in rest, 'mode': 'linked', 'rest': rest, 'feed': 'file', 'store': 'file', 'tpl': 'builtin', 'name': 'gdo.h', 'env': 'e0', 'force': False}
        return {'r': q, 'out': {'single': r.stdout.decode('latin-1') + str(r.returncode)}, 'st': 0, 'dates': 0, 'dated': False}, r
    res = c.pmap(one, list(enumerate(jobs)), c.JOBS)
    for (e, r), j in zip(res, jobs):
        if r.returncode:
            ck.violation('linked ' + str(j[0]) + str(j[2:]), f'a program made with {j[0]} {j[2]} {"-separate" if j[3] else ""} cannot be built or fails: {r.stderr.decode("latin-1")[:300]}', {'stderr': r.stderr.decode('latin-1')[:3000]})
    bad, n = F.judge([e for e, r in res], 'DeterminismTrace')
    for k, why in bad:
        ck.violation(f'linked {why} {jobs[k][0]} {jobs[k][2]}', f'programs made with and without -separate differ: {jobs[k][0]} {jobs[k][2]}', {'event': res[k][0], 'other': res[k - 1][0]})
    ck.cov['programs linked with and without -separate'] = n


def check(ck):
    rng = ck.rng
    lab = Lab(ck)
    rc, out = c.tlc('DeterminismMC', 'SPECIFICATION Spec\nCONSTANTS Len_ = 2 Feeds = {"file", "stdin"} Stores = {"stdout", "file"} Tpls = {"builtin", "dump"} Envs = {"e0"}\nINVARIANTS NoHistory Functional Report\n', workers=8)
    if rc:
        raise c.Broken('DeterminismMC: ' + out[-2000:])
    rc, o2 = c.tlc('DeterminismMC', 'SPECIFICATION Spec\nCONSTANTS Len_ = 0 Feeds = {"file", "stdin"} Stores = {"stdout", "file", "sub"} Tpls = {"builtin", "dump"} Envs = {"e0", "tz"}\nINVARIANTS Independent\n')
    if rc:
        raise c.Broken('DeterminismMC: ' + o2[-2000:])
    hs = sorted(set(re.findall(r'"HIST (.*)"', out)))
    ck.cov['TLC DeterminismMC'] = f'{c.tlc_numbers(out)[1]} states, {len(hs)} histories of two runs; content never depends on history, feeding, storing or environment'
    lim = 20000 if c.THOROUGH else 700
    hists = []
    for h in rng.sample(hs, lim) if len(hs) > lim else hs:
        runs = []
        for x in h.strip(';').split(';'):
            d, fmt, bits, mode, feed, store, tpl, env = x.split(' ')
            runs.append({'decls': d, 'fmt': fmt, 'sep': bits[0] == '1', 'line': bits[1] == '1', 'once': bits[2] == '1', 'mode': mode, 'rest': '', 'feed': feed, 'store': store, 'tpl': tpl,
                         'name': 'gdo.h', 'env': env, 'force': True})
        hists.append(runs)
    ck.cov['runs in histories of the model'] = judge(ck, lab, hists, 'history of the model')
    hists = []
    rests = ['', '-no-date', '-no-date -param=skip', '-no-date -prefix=my', '-prefix=My-lib -D A=1 -include=x.h -library=api:2:foo', '-no-date -ignore-options', '-no-date -ast-all-symbols', '-no-date -Pf -Pa -Pb -Pv -Po -Pc']
    for _ in range(6000 if c.THOROUGH else 260):
        # one input and set of options in many ways, and others in between
        h = []
        fixed = (rng.choice(list(TEXTS)), rng.choice(['c', 'c', 'c++', 'plugin', 'minimal', 'minimal-c++']), rng.choice(rests))
        for _ in range(rng.randint(3, 8)):
            d, fmt, rest = fixed if rng.random() < .85 else (rng.choice(list(TEXTS)), rng.choice(['c', 'c++', 'plugin', 'minimal', 'minimal-c++']), rng.choice(rests))
            if d == 'ast' and '-P' not in rest and '-ast' not in rest:
                rest = '-no-date -ast-all-symbols'
            pfx = 'My-lib' if 'My-lib' in rest else 'my' if '-prefix=my' in rest else 'gdo'
            store = rng.choice(['stdout', 'file', 'file', 'sub', 'abs', 'dot'])
            name = (pfx if store == 'stdout' or rng.random() < .7 else 'other') + ('.hpp' if '++' in fmt else '.h')
            h.append({'decls': d, 'fmt': fmt, 'sep': rng.random() < .5, 'line': rng.random() < .4, 'once': rng.random() < .6, 'mode': rng.choice(['generate'] * 6 + ['template', 'symbols']), 'rest': rest,
                      'feed': rng.choice(['file', 'file', 'stdin', 'stdin', 'abs', 'link', 'pipe', 'fifo']), 'store': store, 'tpl': rng.choice(['builtin', 'builtin', 'dump', 'dump/']), 'name': name,
                      'env': rng.choice(list(ENVS)), 'force': True})
        hists.append(h)
    ck.cov['runs in random histories'] = judge(ck, lab, hists, 'random history')
    linked(ck, lab)
    ck.assumptions += ['other operating systems and other builds of the tool (non-ELF, Windows) are not run', 'input text is the same byte for byte in every way it is fed']


if __name__ == '__main__':
    c.main(check, 'C22', 'model_checking')
