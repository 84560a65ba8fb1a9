#!/usr/bin/env python3
"""C21: sessions of the real tool end in a result or a diagnostic, against spec/Session.tla and spec/Front.tla"""
import itertools, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as c
import front as F
from manyrun import many

GOOD = b'int foo(int a);\nchar *bar(void);\nextern int obj;\n'
BAD = [b'int foo(int a);\n}\n', b'int foo(int a\n', b'=\n', b'int foo(int a);\nint @(void);\n', b'int foo(int a);\n"', b'/* open\n', b'struct {\n', b'int foo(int a);\n%options x\n']
BINARY = [bytes(range(256)), b'\0', b'\xff\xfe' + 'int a(void);\n'.encode('utf-16-le'), b'\x7fELF\2\1\1' + bytes(200), b'int foo(void);\0int bar(void);', b'\x80\x81', b'%option \0\n', b'#\0\nint a\0;']
SAN = ('ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', 'UBSAN_OPTIONS=halt_on_error=1:exitcode=98')


def sanitized():
    return c.build_tool(flags=('-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'), tag='san')


class Lab:
    def __init__(self, ck):
        self.ck = ck
        os.chmod(c.scratch(), 0o711)
        d = c.sub('bin')
        os.chmod(d, 0o755)
        self.tool = self.copy(F.static_tool(), d + '/gendlopen')
        self.san = self.copy(sanitized(), d + '/gendlopen-san')
        self.w = c.sub('sess')
        self.n = 0
        self.shared = c.sub('shared')
        os.chmod(self.shared, 0o755)
        r = c.run([self.tool, '-dump-templates=' + self.shared + '/dump'])
        if r.returncode:
            raise c.Broken('no templates')
        os.mkdir(self.shared + '/partial')
        for f in os.listdir(self.shared + '/dump'):
            if f not in ('c.c', 'minimal.h', 'minimal_cxxeh.hpp', 'cxx.cpp', 'plugin.c'):
                shutil.copy(self.shared + '/dump/' + f, self.shared + '/partial/' + f)
        os.mkdir(self.shared + '/empty')
        os.system('chmod -R a+rX ' + self.shared)

    def copy(self, a, b):
        shutil.copy2(a, b)
        os.chmod(b, 0o755)
        return b

    def fresh(self, files=()):
        d = os.path.join(self.w, f's{self.n}')
        self.n += 1
        os.mkdir(d)
        for n, b in files:
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b)
        return d

    def own(self, d):
        if os.getuid() == 0:
            os.chown(d, 65534, 65534)

    def run(self, jobs, tool, secs=10):
        """jobs: (args, stdin, directory, env) -> [(status, out, err, changed files)]"""
        befores = [snap(j[2]) for j in jobs]
        for j in jobs:
            self.own(j[2])
        res = many(tool, [(a, i, {'cwd': d, 'env': SAN}) for a, i, d in jobs], secs=secs)
        out = []
        for (a, i, d), (st, so, se), b in zip(jobs, res, befores):
            now = snap(d)
            out.append((st, so, se, sorted(k for k in set(b) | set(now) if b.get(k) != now.get(k))))
            shutil.rmtree(d)
        return out


def snap(d):
    out = {}
    for e in os.scandir(d):
        if e.is_symlink():
            out[e.name] = ('l', os.readlink(e.path))
        elif e.is_dir():
            out[e.name] = ('d', tuple(sorted(os.listdir(e.path))))
        else:
            try:
                out[e.name] = ('f', open(e.path, 'rb').read())
            except PermissionError:
                out[e.name] = ('f', None)
    return out


def event(kind, r, s=None):
    st, so, se, ch = r
    e = {'kind': kind, 'st': st if st >= 0 else -1, 'sig': -st if st < 0 else 0, 'msg': bool(se.strip()), 'out': bool(so), 'files': bool(ch)}
    if s:
        e['s'] = s
    return e


def judge(ck, evs, res, desc, what):
    bad, n = F.judge(evs, 'SessionTrace')
    for k, why in bad[:10]:
        st, so, se, ch = res[k]
        args, inp = desc(k)
        if st == -14:
            why = 'no end within the time given'
        ck.violation(f'{why} {args} {inp[:60]!r}', f'{what}: {why} (status {st}): {" ".join(args)[:300]} input {inp[:120]!r}',
                     {'reason': why, 'args': args, 'input': inp[:20000].decode('latin-1'), 'status': st, 'stderr': se[-1500:].decode('latin-1'), 'stdout': so[:200].decode('latin-1'), 'changed': ch})
    return n


LONG = 'n' * 5000


def case_job(lab, s, rng, n):
    d = lab.fresh()
    text = rng.choice(BAD) if s['text'] == 'bad' else rng.choice(BINARY) if s['text'] == 'binary' else b'' if s['input'] == 'empty' else GOOD
    if s['input'] == 'empty':
        text = rng.choice([b'', b'\n', b'// nothing\n', b'#include <x.h>\n', b' '])
    put = lambda n, b: open(os.path.join(d, n), 'wb').write(b)
    i = s['input']
    a = []
    if i in ('file', 'empty'):
        put('in.h', text)
    elif i == 'link':
        put('real', text)
        os.symlink('real', d + '/in.h')
    elif i == 'dir':
        os.mkdir(d + '/in.h')
    elif i == 'noread':
        put('in.h', text)
        os.chmod(d + '/in.h', 0)
    elif i == 'dangling':
        os.symlink('nowhere', d + '/in.h')
    elif i == 'loop':
        os.symlink('in.h', d + '/in.h')
    elif i == 'notdir':
        put('afile', b'x')
    inp = {'notdir': 'afile/in.h', 'toolong': LONG, 'stdin': '-'}.get(i, 'in.h')
    fmt = rng.choice(['c', 'c++', 'plugin', 'minimal', 'minimal-c++'] if s['mode'] != 'separate' else ['c', 'c++', 'plugin'])
    a.append('-format=' + fmt)
    if s['mode'] == 'separate':
        a.append('-separate')
    h, b = ('x.hpp', 'x.cpp') if fmt == 'c++' else ('x.h', 'x.c')
    if s['mode'] == 'template':
        a.append('-template=' + {'file': 't', 'missing': 'nosuch', 'dir': 'tdir'}[s['tpl']])
        put('t', b'A template\n%%symbol%%\n')
        os.mkdir(d + '/tdir')
    if s['mode'] == 'symbols':
        a.append('-print-symbols')
    if s['tpath'] != 'none':
        put('plain', b'x')
        a.append('-templates-path=' + {'dump': lab.shared + '/dump', 'missing': 'nosuch', 'partial': lab.shared + '/partial', 'isfile': 'plain', 'empty': lab.shared + '/empty'}[s['tpath']])
    o = s['out']
    if o in ('exists', 'body-exists'):
        put(h if o == 'exists' else b, b'old')
    elif o == 'dir':
        os.mkdir(d + '/' + h)
        open(f'{d}/{h}/inside', 'w').close()
    elif o == 'notdir':
        put('ofile', b'x')
    if o != 'stdout':
        a.append('-out=' + {'nodir': 'nosuchdir/', 'notdir': 'ofile/', 'toolong': LONG}.get(o, '') + h)
    if s['force']:
        a.append('-force')
    if s['text'] == 'other':
        a += rng.choice([['-Snot_there'], ['-Pnot_there'], ['-Sfoo', '-Sfooo']])
    if s['opts'] == 'unknown':
        a.insert(rng.randint(0, len(a)), rng.choice(['-unknown', '--x', '-outt=x', '---', '-0']))
    elif s['opts'] == 'badvalue':
        a.insert(rng.randint(0, len(a)), rng.choice(['-format=d', '-param=x', '-out=', '-include=', '--prefix=']))
    a.append(inp)
    if s['opts'] == 'novalue':
        a.append(rng.choice(['-out', '-D', '-format', '--template', '-S']))
    return a, text if inp == '-' else b'int decoy(void);\n', d


def check(ck):
    rng = ck.rng
    lab = Lab(ck)
    rc, out = c.tlc('SessionMC', 'SPECIFICATION Spec\nINVARIANTS Right Report\nPROPERTY Ends\n', workers=1)
    if rc:
        raise c.Broken('SessionMC: ' + out[-2000:])
    names = ('opts', 'input', 'text', 'mode', 'tpl', 'tpath', 'out', 'force')
    cases = [dict(zip(names, x.split(' '))) for x in sorted(set(re.findall(r'"CASE (.*)"', out)))]
    ck.cov['TLC SessionMC'] = f'{c.tlc_numbers(out)[1]} states, {len(cases)} sessions, all end'
    if not c.THOROUGH and len(cases) > 4000:
        cases = rng.sample(cases, 4000)
    for s in cases:
        s['force'] = s['force'] == '1'
    for tool, part in ((lab.tool, cases), (lab.san, cases if c.THOROUGH else rng.sample(cases, 800))):
        jobs = [case_job(lab, s, rng, k) for k, s in enumerate(part)]
        desc = [(j[0], j[1]) for j in jobs]
        res = lab.run(jobs, tool)
        judge(ck, [event('case', r, s) for r, s in zip(res, part)], res, lambda k: desc[k], 'session of the model')
    ck.cov['sessions of the model done'] = len(cases)

    # texts: all short sequences of atoms, judged by the front end's specification
    atoms = sorted(set(F.ATOMS) | {b'=', b'"', b'[', b']', b')', b'%option', b'\x1b[0;1m', b'\0', b'\xff', b'TranslationUnitDecl 0x1', b'union', b'enum X', b'...', b'int (*f)(', b'&', b'@', b'//', b'/*', b'%option no-date\n', b'"\\"', b'}}', b'L\'x\''})
    texts = [b''.join(x) for n in (1, 2) for x in itertools.product(atoms, repeat=n)]
    n3 = len(atoms) ** 3
    texts += [b''.join(rng.choice(atoms) for _ in range(rng.choice([3, 3, 4, 5, 7]))) for _ in range(60000 if c.THOROUGH else 3500)]
    texts = sorted(set(texts))
    cs = [F.Case(t) for t in texts if b'TranslationUnitDecl' not in t and b'\x1b' not in t]
    res, ev, bad = F.judge_cases(lab.tool, cs, ck, 'short text')
    ck.cov['short texts judged'] = f'{len(cs)}, {sum(1 for r in res if r[0] == 0)} accepted; all texts of up to 2 of {len(atoms)} atoms'

    # anything
    corpus = [GOOD] + BAD + BINARY + [open(os.path.join(c.REPO, 'tests', f), 'rb').read() for f in ('helloworld.h', 'ast.txt') if os.path.exists(os.path.join(c.REPO, 'tests', f))]
    corpus += [b'%option D=X=1 include=y.h\n#include <a.h>\n/* c */ void (*sig)(int n, void (*h)(int));\nint arr[4][N];\nstruct s { int a; } ;\ntypedef int x;\nextern "C" {\nstruct s *one(struct s *p, ...);\n}\n']
    corpus += [b''.join(rng.choice(atoms) for _ in range(40)) for _ in range(10)]
    toks = [b'int', b'(', b')', b'*', b',', b';', b'[', b']', b'{', b'}', b'\n', b' ', b'"', b"'", b'/*', b'*/', b'//', b'#', b'%option ', b'\\\n', b'=', b'foo', b'struct ', b'typedef ', b'const', b'...', b'0x', b'|-FunctionDecl 0x1 <', b"'int (int)'",
            b'`-VarDecl 0x2 <x> ', b'| `-ParmVarDecl 0x3 <', b'TranslationUnitDecl 0x1\n', b'\x1b[0;32m', b'\xef\xbb\xbf', b'\0', b'\xff', b'-', b':', b'<', b'>', b'prev 0x5 ', b'invalid ', b'line:1:2', b' extern', b' foo ', b"'", b'static ', b"'int':'int'"]

    def mutate(b):
        b = bytearray(b)
        for _ in range(rng.choice([1, 1, 2, 3, 5, 9])):
            p = rng.randrange(len(b) + 1)
            q = min(len(b), p + rng.choice([1, 1, 2, 4, 10, 100]))
            k = rng.random()
            if k < .3:
                b[p:p] = rng.choice(toks)
            elif k < .5:
                del b[p:q]
            elif k < .6 and b:
                b[min(p, len(b) - 1)] = rng.randrange(256)
            elif k < .75:
                o = rng.choice(corpus)
                u = rng.randrange(len(o) + 1)
                b[p:q] = o[u:u + rng.choice([1, 5, 20, 200])]
            elif k < .85:
                b[p:p] = b[p:q] * rng.choice([2, 3, 50])
            else:
                b[p:q] = b''.join(rng.choice(toks) for _ in range(rng.randint(1, 6)))
        return bytes(b[:60000])
    inputs = []
    for _ in range(40000 if c.THOROUGH else 3200):
        b = rng.choice(corpus)
        if len(b) > 6000:
            u = rng.randrange(len(b) - 3000)
            b = (b[:200] if rng.random() < .5 else b'') + b[u:u + 3000]
        inputs.append(mutate(b) if rng.random() < .95 else bytes(rng.randrange(256) for _ in range(rng.randint(0, 300))))
    opts = [[], [], ['-ast-all-symbols'], ['-ast-all-symbols', '-param=create'], ['-Pf', '-Sfoo'], ['-param=skip'], ['-line', '-format=minimal'], ['-ignore-options'], ['-print-symbols']]
    jobs, desc = [], []
    for b in inputs:
        a = list(rng.choice(opts)) + (['-out=x.h'] if rng.random() < .3 else []) + (['-separate'] if rng.random() < .1 else [])
        jobs.append((a + ['-'], b, lab.fresh()))
        desc.append((a + ['-'], b))
    res = lab.run(jobs, lab.san)
    judge(ck, [event('any', r) for r in res], res, lambda k: desc[k], 'mutated input')
    ck.cov['mutated inputs, address and undefined behaviour sanitizers'] = f'{len(jobs)}, {sum(1 for r in res if r[0] == 0)} accepted'

    # large and deep
    N = 200000 if c.THOROUGH else 30000
    big = [b'int ' + b'x' * N + b'(void);\n', b'int f(int ' + b'a' * N + b');', b'int f(' + b'int, ' * N + b'int);', b'int ' + b'*' * N + b'f(void);', b'/*' + b'*' * N + b'*/int a;', b'//' + b'\\\n' * N + b'\nint a;',
           b'#define X ' + b'\\\n' * N + b'\nint a;', b'"' + b'\\"' * N + b'"', b'struct ' + b'{' * N, b'struct {' + b'{}' * N + b'};int a;', b'int a' + b'[1]' * N + b';', b'\n' * N + b'int a;', b'int a;' * N, b'%option ' + b'no-date ' * N + b'\nint a;',
           b'%option D=' + b'x' * N + b'\nint a;', b'%option include=' + b'x' * N + b'\nint a;', b'%option library=' + b'x' * N + b'\nint a;', b'%option prefix=' + b'x' * N + b'\nint a;', b'int a' + b' ' * N + b';', b'\xef\xbb\xbf' * N, b'int ' * N + b'a;', b'}' * N,
           b'\\\n' * N + b'int a;', b'int a;\n' + b'#\n' * N, b'' .join(b'int f%d(int a, char *b);\n' % k for k in range(N // 20)), b'TranslationUnitDecl 0x1\n' + b''.join(b"|-FunctionDecl 0x%x <a> col:1 f%d 'int (int)'\n| `-ParmVarDecl 0x3 <a> col:1 a 'int'\n" % (k, k) for k in range(N // 50)),
           b"TranslationUnitDecl 0x1\n|-FunctionDecl 0x2 <a> col:1 f 'int (" + b'int, ' * N + b"int)'\n", b"TranslationUnitDecl 0x1\n|-VarDecl 0x2 <a> col:1 " + b'v' * N + b" 'int' extern\n", b'TranslationUnitDecl 0x1\n' + b'|-' + b'x' * N + b'\n',
           b"TranslationUnitDecl 0x1\n|-FunctionDecl 0x2 <a> col:1 f 'int " + b'(' * (N // 20) + b"'\n", b'int f' + b'(' * (N // 20), b'int ' + b'(' * (N // 40) + b'f' + b')' * (N // 40) + b'(void);', b'int f(int (*' * (N // 40), b'\x1b[0;1m' * N + b'int a;']
    jobs, desc = [], []
    for b in big:
        for tool in ('t', 's'):
            for a in ([], ['-ast-all-symbols', '-param=create']) if c.THOROUGH or tool == 't' else ([],):
                jobs.append((a + ['-format=minimal', '-'], b, lab.fresh(), tool))
                desc.append((a + ['-format=minimal', '-'], b))
    for tool, t in (('t', lab.tool), ('s', lab.san)):
        idx = [k for k, j in enumerate(jobs) if j[3] == tool]
        res = lab.run([jobs[k][:3] for k in idx], t, secs=60)
        judge(ck, [event('any', r) for r in res], res, lambda k: desc[idx[k]], 'large input')
    ck.cov['large inputs'] = f'{len(big)}, up to {max(map(len, big))} bytes'

    # templates of any content, and command lines of any words
    ph = [b'%%symbol%%', b'%%func_symbol%%', b'%%obj_symbol%%', b'%%type%%', b'%%args%%', b'%%', b'%', b'@', b'@\n', b'\n', b'%PARAM_SKIP_REMOVE_BEGIN%\n', b'%PARAM_SKIP_USE_BEGIN%\n', b'%PARAM_SKIP_END%\n', b'gdo_', b'GDO_', b'%%type', b'%%return%%', b'%%param_names%%', b'\r\n', b'\0', b'x' * 3000, b'%%func_symbol_pad%%', b'$1', b'#line 1\n', b'%%notype%%']
    jobs, desc = [], []
    for _ in range(8000 if c.THOROUGH else 700):
        t = b''.join(rng.choice(ph) for _ in range(rng.randint(0, 12)))
        d = lab.fresh([('t', t)])
        if rng.random() < .3:
            os.mkdir(d + '/tp')
            for f in os.listdir(lab.shared + '/dump'):
                open(f'{d}/tp/{f}', 'wb').write(t if rng.random() < .7 else b'')
            os.system(f'chmod -R a+rX {d}/tp') if False else None
            a = ['-templates-path=tp', '-format=' + rng.choice(['c', 'c++', 'minimal'])]
        else:
            a = ['-template=t']
        a += rng.choice([[], ['-line'], ['-prefix=abc'], ['-param=skip', '-out=o']])
        jobs.append((a + ['-'], GOOD, d))
        desc.append((a + ['-'], t))
    res = lab.run(jobs, lab.san)
    judge(ck, [event('template', r) for r in res], res, lambda k: desc[k], 'template of any content')
    ck.cov['templates of any content'] = len(jobs)
    jobs, desc = [], []
    words = ['-', '--', '', 'in.h', '-D', '-S', '-P', '-format', '=', 'c', '-out=o', '-out', 'o', '-force', '-separate', '-line', '-template=', '-template', 'in.h', '-help', '-full-help', '-version', '-dump-templates', '-dump-templates=d', '-prefix=%s%n', '-prefix', '-include=<',
             '-library=', '-library=nq:', '-library=api:', '-library=api::', '-library=L"', '-library="', '-include=nq:', '-include="', '-D=', '-D= ', '-D\t', '-S*', '-P', '-P\x01', '-\xff', '\x01', '-param=skip', '-print-symbols', '-templates-path=d', '-templates-path=', 'x' * 3000, '-' + 'x' * 3000, '-out=' + 'x' * 255,
             '-out=.', '-out=..', '-out=/', '-out=.h', '-out=d/', '-out=a.b.c', '-out=\n', '-prefix=1', '-prefix= ', '-prefix=é', '-format=\xe9', '-?', '/?']
    for _ in range(12000 if c.THOROUGH else 1500):
        a = [rng.choice(words) if rng.random() < .93 else rng.choice(words) + rng.choice(words) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9]))]
        a.insert(rng.randint(0, len(a)), 'in.h') if rng.random() < .6 else None
        jobs.append((a, GOOD, lab.fresh([('in.h', GOOD)])))
        desc.append((a, b''))
    res = lab.run(jobs, lab.san)
    judge(ck, [event('any', r) for r in res], res, lambda k: desc[k], 'command line of any words')
    ck.cov['command lines of any words'] = f'{len(jobs)}, {sum(1 for r in res if r[0] == 0)} accepted'
    # values of every option: long ones, many of them, on the command line and in the text
    vals = [''] + [(ch * n)[:50000] for n in (1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 30000, 100000) for ch in ('x', 'a=', '_', '-', '"', '/', ':', 'api:', '%', '\\', '\x7f', '\xe9')]
    jobs, desc = [], []
    for opt in ['D', 'format', 'include', 'library', 'prefix', 'param', 'S', 'P', 'out', 'template', 'templates-path', 'force', 'line', 'version', 'nosuch', 'dump-templates']:
        for v in (vals if c.THOROUGH else rng.sample(vals, 45)):
            v = rng.choice(['', '', 'nq:', 'ext:', 'api:1:', '<', 'c', 'X=', 'no']) + v
            v = v[:2000] if opt == 'prefix' else v
            inp, a = GOOD, []
            if rng.random() < .35 and opt in ('D', 'format', 'include', 'library', 'prefix', 'param', 'nosuch', 'line') and not re.search('[\\s]', v):
                inp = b'%option ' + opt.encode() + b'=' * (rng.random() < .95) + v.encode('utf8') + b'\n' + GOOD
            elif rng.random() < .1:
                a = [x for k in range(900) for x in (f'-{opt}={v[:100]}{k}',)]
            else:
                a = rng.choice([[f'-{opt}={v}'], [f'--{opt}={v}'], [f'-{opt}', v] if v else [f'-{opt}'], [f'-{opt}{v}']])
            a += rng.choice([[], ['-out=x.h'], ['-format=minimal'], ['-print-symbols']]) + ['-']
            jobs.append((a, inp, lab.fresh()))
            desc.append((a, inp))
    res = lab.run(jobs, lab.san, secs=60)
    judge(ck, [event('any', r) for r in res], res, lambda k: desc[k], 'value of an option')
    ck.cov['long and odd values of options'] = f'{len(jobs)}, {sum(1 for r in res if r[0] == 0)} accepted'
    ck.assumptions += ['memory is not exhausted; a session that takes more than 10 s (60 s for large inputs) is taken for one that does not end']


if __name__ == '__main__':
    c.main(check, 'C21', 'model_checking')
