#!/usr/bin/env python3
"""C19: runs of the real tool with devices that fail at any offset, against spec/Writer.tla (judged by WriterTrace.tla)"""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import front as F
from manyrun import many

SMALL = 'int foo(int a);\nchar *bar(void);\nint obj;\n'
BIG = ''.join(f'int a_function_with_a_name_{k}(int a, char *b, struct s *c);\nconst char *obj_{k};\n' for k in range(400))
INF = 1 << 30


def own(d):
    if os.getuid() == 0:
        os.chown(d, 65534, 65534)


class Mode:
    """a way to use the tool; outs: files it writes (in order), or standard output"""

    def __init__(self, name, args, inp, stdout, files=None):
        self.name, self.args, self.inp, self.stdout, self.files = name, args, inp.encode(), stdout, files


def modes(w):
    t = os.path.join(w, 'tpl')
    open(t, 'w').write('a template %%symbol%%\nplain\n' * 30)
    t1 = os.path.join(w, 'tpl1')
    open(t1, 'w').write('x\n')
    out = []
    for n, inp in (('small', SMALL), ('big', BIG)):
        for f in ('C', 'C++', 'plugin', 'minimal', 'minimal-C++'):
            a = ['-no-date', '-format=' + f]
            out.append(Mode(f'{f} to stdout ({n})', a + ['-'], inp, True))
            out.append(Mode(f'{f} to a file ({n})', a + ['-out=x.h', '-'], inp, False))
            if 'minimal' not in f:
                out.append(Mode(f'{f} separate ({n})', a + ['-out=x.h', '-separate', '-line', '-'], inp, False))
        out.append(Mode(f'template to stdout ({n})', ['-template=' + t, '-'], inp, True))
        out.append(Mode(f'template to a file ({n})', ['-template=' + t, '-out=x', '-'], inp, False))
        out.append(Mode(f'symbols ({n})', ['-print-symbols', '-'], inp, True))
    out.append(Mode('short template to stdout', ['-template=' + t1, '-'], SMALL, True))
    out.append(Mode('short template to a file', ['-template=' + t1, '-out=x', '-'], SMALL, False))
    out.append(Mode('help', ['-help'], '', True))
    out.append(Mode('full help', ['-full-help'], '', True))
    out.append(Mode('version', ['-version'], '', True))
    out.append(Mode('dump', ['-dump-templates=d'], '', False))
    return out


def files(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            if not os.path.islink(p):
                out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def check(ck):
    d = c.sub('bin')
    os.chmod(c.scratch(), 0o711)
    os.chmod(d, 0o755)
    tool = os.path.join(d, 'gendlopen')
    shutil.copy2(F.static_tool(), tool)
    os.chmod(tool, 0o755)
    rng = ck.rng
    rc, out = c.tlc('WriterMC', 'SPECIFICATION Spec\nCONSTANTS MaxSize = 3 MaxStreams = 2\nINVARIANTS Outcome Report\nPROPERTIES Terminates\n', workers=1, timeout=600)
    if rc:
        raise c.Broken('WriterMC: ' + out[-1500:])
    classes = sorted(set(re.findall(r'"RUN ([^"]*)"', out)))
    ck.cov['TLC WriterMC'] = f'{c.tlc_numbers(out)[1]} states, outcome and termination hold; {len(classes)} kinds of failing devices'
    w = c.sub('w')
    os.chmod(w, 0o755)
    ms = modes(w)
    n = [0]

    def fresh(setup=None):
        n[0] += 1
        x = os.path.join(w, f'r{n[0]}')
        os.mkdir(x)
        if setup:
            setup(x)
        own(x)
        return x
    # what is written when nothing fails
    runs = [(m.args, m.inp, {'cwd': fresh(), 'out': 5}) for m in ms]
    res = many(tool, runs)
    for m, r, q in zip(ms, res, runs):
        m.ref = files(q[2]['cwd'])
        m.refout = r[1]
        m.size = len(m.refout) if m.stdout else max([len(x) for x in m.ref.values()] + [0])
        m.sizes = [len(m.refout)] if m.stdout else sorted(len(x) for x in m.ref.values())
        if r[0] != 0 or m.size == 0:
            ck.violation('reference ' + m.name, f'{m.name}: status {r[0]}, {m.size} bytes, although nothing fails', {'args': m.args, 'stderr': r[2][-300:].decode('latin-1')})
            return
    jobs = []    # (mode, limit, stdout mode, directory, opens)
    # offsets: every class of the model (before, at, within, after each stream) and buffer boundaries, random ones
    for m in ms:
        offs = {0, 1, 2, m.size + 1, m.size + 5000}
        for s in m.sizes:
            offs |= {s - 2, s - 1, s, s + 1, s // 2}
        for b in (511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 16384, 32768, 65536):
            offs |= {b - 1, b, b + 1, m.size - b, m.size // b * b, m.size // b * b - 1}
        offs |= {rng.randrange(m.size + 2) for _ in range(3000 if c.THOROUGH else 90)}
        for o in sorted(x for x in offs if 0 <= x <= m.size + 5000):
            jobs.append((m, o, 0 if m.stdout else 5, None, True))
        if m.stdout:
            for o in (2, 3, 4):
                jobs.append((m, -1, o, None, True))
            jobs.append((m, -1, 5, None, True))
        else:
            for _ in range(2):
                jobs.append((m, -1, 2 if m.name == 'dump' else 5, None, True))
    # output that cannot be created
    def sub_ro(x):
        os.mkdir(os.path.join(x, 'ro'))
        os.chmod(os.path.join(x, 'ro'), 0o755)
        open(os.path.join(x, 'file'), 'w').close()
    bad = [('nodir/x.h', None), ('ro/x.h', sub_ro), ('file/x.h', sub_ro), ('y' * 300 + '.h', None), ('a/' * 2100 + 'x.h', None), ('/dev/null/x.h', None), ('ro', sub_ro), ('nodir/', None)]
    for m in ms:
        if m.stdout or m.name == 'dump':
            continue
        for p, s in bad:
            if p == 'ro' and '-separate' in m.args:
                continue
            a = [x for x in m.args if not x.startswith('-out=')]
            for force in ([], ['-force']):
                jobs.append((Mode(m.name + ' to ' + p[:20], ['-out=' + p] + force + a, m.inp.decode(), False), -1, 5, s, False))
    for p, s in (('ro/t', sub_ro), ('file', sub_ro), ('file/x', sub_ro), ('ro', sub_ro), ('y' * 300, None), ('t', lambda x: os.makedirs(os.path.join(x, 't', 'minimal.h'))),
                 ('t', lambda x: (os.mkdir(os.path.join(x, 't')), open(os.path.join(x, 't', 'plugin.c'), 'w').close(), os.chmod(os.path.join(x, 't', 'plugin.c'), 0o444), own(os.path.join(x, 't')))),
                 ('t', lambda x: (os.mkdir(os.path.join(x, 't')), os.symlink('loop', os.path.join(x, 't', 'c.h')), os.symlink('c.h', os.path.join(x, 't', 'loop')), own(os.path.join(x, 't'))))):
        jobs.append((Mode('dump to ' + p[:20], ['-dump-templates=' + p], '', False), -1, 5, s, False))
    # inputs that cannot be read: success would mean an output made of nothing
    for a in (['nosuch'], ['.'], ['-templates-path=nosuch', '-'], ['-templates-path=.', '-'], ['-template=nosuch', '-'], ['-template=.', '-'], ['ro/..'], ['file/x']):
        jobs.append((Mode('unreadable ' + ' '.join(a), ['-no-date'] + a, SMALL, True), -1, 5, sub_ro, False))
        jobs.append((Mode('unreadable ' + ' '.join(a), ['-no-date', '-out=x.h'] + a, SMALL, False), -1, 5, sub_ro, False))
    runs = []
    for m, lim, o, setup, opens in jobs:
        runs.append((m.args, m.inp, {'cwd': fresh(setup), 'limit': lim, 'out': o}))
    res = many(tool, runs)
    ev, idx = [], []
    for k, ((m, lim, o, setup, opens), q, r) in enumerate(zip(jobs, runs, res)):
        if F.crash(r[0]):
            ck.violation(f'crash {m.name}', f'{m.name}: ended with status {r[0]} (limit {lim}, standard output {o})', {'args': m.args, 'limit': lim, 'stdout': o, 'stderr': r[2][-300:].decode('latin-1')})
            continue
        room = INF if lim < 0 else lim
        fs = files(q[2]['cwd'])
        if not opens:
            ss, got, pre = [{'size': 1, 'room': 0, 'opens': False}], [0], [True]
        elif m.stdout:
            rm = {2: 0, 3: 0, 4: 0, 5: INF}.get(o, room)
            g = r[1] if o in (0, 5) else b''
            ss, got, pre = [{'size': len(m.refout), 'room': rm, 'opens': True}], [len(g)], [m.refout.startswith(g)]
        else:
            ss, got, pre = [], [], []
            for name in sorted(m.ref):
                g = fs.get(name, b'')
                ss.append({'size': len(m.ref[name]), 'room': room, 'opens': True})
                got.append(len(g))
                pre.append(m.ref[name].startswith(g))
            if set(fs) - set(m.ref):
                pre[0] = False
            if m.name == 'dump' and o == 2:
                ss.append({'size': 1, 'room': 0, 'opens': True})
                got.append(0)
                pre.append(True)
        ev.append({'ss': ss, 'got': got, 'prefix': pre, 'st': 0 if r[0] == 0 else 1, 'msg': bool(r[2].strip())})
        idx.append(k)
    bad, cnt = F.judge(ev, 'WriterTrace')
    for k, why in bad[:12]:
        m, lim, o, setup, opens = jobs[idx[k]]
        ck.violation(f'{why} {m.name} {lim if lim < 0 else "limit"} {o}', f'{m.name}: {why} (size limit {lim}, standard output {["limited", "", "/dev/full", "closed", "broken pipe", "pipe"][o]})',
                     {'args': m.args, 'limit': lim, 'stdout': o, 'event': ev[k], 'stderr': res[idx[k]][2][-300:].decode('latin-1')})
    ck.cov['runs'] = f'{len(jobs)}: {len(ms)} modes of use, {sum(1 for e in ev if e["st"])} failed as they must, {sum(1 for e in ev if not e["st"])} complete'
    ck.assumptions.append('devices fail like a file size limit, a full device, a closed descriptor or a pipe without reader; standard output is open when templates are dumped')


c.main(check, 'C19', 'model_checking')
