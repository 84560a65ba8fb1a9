#!/usr/bin/env python3
"""C18: what runs of the real tool do to directories, against spec/Output.tla (judged by OutputTrace.tla)"""
import os, re, shutil, stat, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
import front as F
from manyrun import many

OLD = b'old content\n'
SECRET = b'what the link points at\n'
GOOD = 'int foo(int a);\nchar *bar(void);\nint obj;\n'
BADIN = ['int foo(int a);\n}\n', 'int foo(int a);\nint foo(int a);\n', '', 'int f(int a', 'int *;\n']


def make(d, name, kind):
    """materialize a path; what links point at lies in the directory too"""
    p = os.path.join(d, name)
    if kind == 'file':
        open(p, 'wb').write(OLD)
    elif kind == 'empty':
        open(p, 'wb').close()
    elif kind in ('link', 'dirlink', 'dangling', 'loop'):
        t = f'target-of-{name}'
        if kind == 'link':
            open(os.path.join(d, t), 'wb').write(SECRET)
        elif kind == 'dirlink':
            os.mkdir(os.path.join(d, t))
            open(os.path.join(d, t, 'inside'), 'wb').write(SECRET)
        os.symlink(name if kind == 'loop' else t, p)
    elif kind == 'dir':
        os.mkdir(p)
    elif kind == 'fulldir':
        os.mkdir(p)
        open(os.path.join(p, 'inside'), 'wb').write(OLD)
    elif kind == 'fifo':
        os.mkfifo(p)
    elif kind == 'readonly':
        open(p, 'wb').write(OLD)
        os.chmod(p, 0o444)


def snap(d, rel=''):
    """name -> (type, data)"""
    out = {}
    for e in os.scandir(os.path.join(d, rel)):
        n = os.path.join(rel, e.name)
        st = e.stat(follow_symlinks=False)
        if e.is_symlink():
            out[n] = ('symlink', os.readlink(e.path))
        elif stat.S_ISDIR(st.st_mode):
            out[n] = ('directory', oct(st.st_mode))
            out.update(snap(d, n))
        elif stat.S_ISREG(st.st_mode):
            out[n] = ('regular', open(e.path, 'rb').read(), st.st_ino if len(open(e.path, 'rb').read()) == 0 else 0, oct(st.st_mode))
        else:
            out[n] = ('special', st.st_mode)
    return out


def kinds(before, after, names, kind_of, want):
    """abstract both: [n, k, c]"""
    def fs(s, first):
        q = []
        for n in sorted(set(before) | set(after)):
            if n not in s:
                continue
            if first or s[n] == before.get(n):
                q.append({'n': n, 'k': kind_of.get(n, 'file' if s[n][0] == 'regular' else s[n][0]), 'c': 'old'})
            elif s[n][0] == 'regular':
                w = want.get(n)
                q.append({'n': n, 'k': 'file', 'c': 'new' if s[n][1] == w else 'part' if w and w.startswith(s[n][1]) else 'alien'})
            else:
                q.append({'n': n, 'k': s[n][0], 'c': 'alien'})
        return q
    return fs(before, True), fs(after, False)


class Job:
    def __init__(self, kinds, cfg, inp, opts=(), note=''):
        self.kinds, self.cfg, self.inp, self.opts, self.note = kinds, cfg, inp, list(opts), note

    def args(self, tpl):
        g = self.cfg
        a = ['-no-date', '-format=' + g['fmt']] + self.opts
        a += ['-out=' + g['out']] if g['out'] else []
        a += ['-separate'] if g['sep'] else []
        a += ['-force'] if g['force'] else []
        a += ['-template=' + tpl['mixed' if g['bad'] == 'template' else 'good']] if g['mode'] == 'template' else []
        a += ['-print-symbols'] if g['mode'] == 'print' else []
        return a + ['-']


def run_jobs(ck, tool, jobs, what):
    w = c.sub('fs')
    os.chmod(c.scratch(), 0o711)
    t = c.sub('fstpl')
    tpl = {'good': os.path.join(t, 'good'), 'mixed': os.path.join(t, 'mixed')}
    open(tpl['good'], 'w').write('a template\n%%symbol%%\n' * 20)
    open(tpl['mixed'], 'w').write('a template\n%%symbol%%\n' * 20 + '%%symbol%% %%func_symbol%%\n')
    # what each configuration is to write: into empty directories
    ref, want = {}, {}
    for j in jobs:
        g = j.cfg
        k = (g['out'], g['fmt'], g['sep'], g['mode'], tuple(j.opts))
        if g['bad'] == '' and k not in ref:
            ref[k] = len(ref)
    keys = sorted(ref, key=lambda k: ref[k])
    runs = []
    for k in keys:
        d = os.path.join(w, f'r{ref[k]}')
        os.mkdir(d)
        os.chown(d, 65534, 65534) if os.getuid() == 0 else None
        g = {'out': k[0], 'fmt': k[1], 'sep': k[2], 'force': False, 'mode': k[3], 'bad': ''}
        runs.append((Job({}, g, GOOD, k[4]).args(tpl), GOOD.encode(), {'cwd': d}))
    res = many(tool, runs)
    for k, r in zip(keys, res):
        want[k] = {n: x[1] for n, x in snap(os.path.join(w, f'r{ref[k]}')).items() if x[0] == 'regular'}
    runs, snaps = [], []
    for n, j in enumerate(jobs):
        d = os.path.join(w, f'j{n}')
        os.mkdir(d)
        for name, k in j.kinds.items():
            make(d, name, k)
        open(os.path.join(d, 'bystander'), 'wb').write(OLD)
        if os.getuid() == 0:
            os.chown(d, 65534, 65534)
            for r, ds, fs in os.walk(d):
                for x in ds + fs:
                    os.chown(os.path.join(r, x), 65534, 65534, follow_symlinks=False)
        snaps.append(snap(d))
        runs.append((j.args(tpl), j.inp.encode(), {'cwd': d}))
    res = many(tool, runs)
    ev, idx = [], []
    for n, j in enumerate(jobs):
        d = os.path.join(w, f'j{n}')
        st, so, se = res[n]
        after = snap(d)
        if F.crash(st):
            ck.violation('crash ' + str(j.kinds) + str(j.args(tpl)), f'{what}: the tool ended with status {st}: {j.kinds} {j.args(tpl)}', {'paths': j.kinds, 'args': j.args(tpl), 'stderr': se[-300:].decode('latin-1')})
            continue
        g = j.cfg
        k = (g['out'], g['fmt'], g['sep'], g['mode'], tuple(j.opts))
        b, a = kinds(snaps[n], after, None, j.kinds, want.get(k, {}))
        ev.append({'cfg': g, 'before': b, 'after': a, 'st': 0 if st == 0 else 1, 'msg': bool(se.strip())})
        idx.append(n)
    shutil.rmtree(w)
    bad, n = F.judge(ev, 'OutputTrace')
    if n != len(ev):
        raise c.Broken('events lost')
    for k, why in bad[:12]:
        j = jobs[idx[k]]
        ck.violation(f'{why} {j.cfg} {j.kinds}', f'{what}: {why}: {j.kinds} args {" ".join(j.args(tpl))}',
                     {'reason': why, 'paths': j.kinds, 'args': j.args(tpl), 'input': j.inp, 'status': res[idx[k]][0], 'stderr': res[idx[k]][2][-300:].decode('latin-1'), 'event': ev[k]})
    return ev


def check(ck):
    tool = F.static_tool()
    d = c.sub('bin')
    os.chmod(d, 0o755)
    shutil.copy2(tool, d + '/gendlopen')
    os.chmod(d + '/gendlopen', 0o755)
    tool = d + '/gendlopen'
    rng = ck.rng
    rc, out = c.tlc('OutputMC', 'SPECIFICATION Spec\nCONSTANT Runs = %d\nINVARIANTS Kept Complete CleanFailure Report\n' % 1, workers=8, timeout=600)
    if rc:
        raise c.Broken('OutputMC: ' + out[-1500:])
    rs = sorted(set(re.findall(r'"RUN (.*)"', out)))
    ck.cov['TLC OutputMC'] = f'{c.tlc_numbers(out)[1]} states, invariants hold; {len(rs)} (directory, run) pairs'
    # those where the run touches something that exists come first
    def parse(r):
        ks, cf = r.split(' | ')
        h, b, x = ks.split()
        o, fmt, sep, force, mode, bad = cf.split()
        cfg = {'out': '' if o == '-' else o, 'fmt': fmt, 'sep': sep == '1', 'force': force == '1', 'mode': mode, 'bad': '' if bad == '-' else bad}
        return {'x.h': h, 'x.c': b, 'x': x}, cfg
    limit = len(rs) if c.THOROUGH else 7000
    if len(rs) > limit:
        rs = rng.sample(rs, limit)
    jobs = []
    for r in rs:
        k, g = parse(r)
        inp = rng.choice(BADIN) if g['bad'] == 'input' else GOOD
        jobs.append(Job(k, g, inp))
    run_jobs(ck, tool, jobs, 'directory of the model')
    ck.cov['runs of the model done'] = len(jobs)
    # other names, options and kinds
    jobs = []
    for _ in range(20000 if c.THOROUGH else 2500):
        out = rng.choice(['x', 'x.h', 'x.c', 'x.hpp', 'x.cpp', 'a.b.c', '.x', '.x.y', 'x y.h', './x.h', 'sub/x.h', 'nodir/x.h', 'x.', '-', '', 'file/x', 'link/x.h', 'Ünï.h', 'x.h.old'])
        fmt = rng.choice(['C', 'C++', 'plugin', 'minimal', 'minimal-C++'])
        mode = rng.choice(['gen', 'gen', 'gen', 'template', 'print'])
        g = {'out': out, 'fmt': fmt, 'sep': rng.random() < .6, 'force': rng.random() < .5, 'mode': mode,
             'bad': rng.choice(['', '', '', '', 'input', 'template' if mode == 'template' else ''])}
        base = os.path.splitext(os.path.basename(out))[0]
        names = {out, base, base + '.h', base + '.c', base + '.hpp', base + '.cpp'}
        ks = {n: rng.choice(['file', 'empty', 'readonly', 'link', 'dangling', 'dir', 'fulldir', 'dirlink', 'loop', 'fifo']) for n in sorted(names)
              if n and '/' not in n and n != '-' and rng.random() < .35}
        cfg = dict(g)
        if '/' in out and not out.startswith('./'):
            # directories are part of the surroundings; the model knows names of one directory
            continue
        if out.startswith('./'):
            cfg['out'] = out[2:]
        j = Job(ks, cfg, rng.choice(BADIN) if g['bad'] == 'input' else GOOD,
                rng.choice([[], ['-line'], ['-prefix=foo'], ['-param=skip'], ['-DFOO', '-include=x.h']]))
        if g['bad'] == 'input' and rng.random() < .4:
            j.inp, j.opts = GOOD, j.opts + [rng.choice(['-Snosuch', '-Pnosuch', '-format=x', '-templates-path=nosuch', '-nosuch', '-param=x'])]
            if '-templates-path=nosuch' in j.opts and mode != 'gen':
                j.opts[-1] = '-Snosuch'
        jobs.append(j)
    run_jobs(ck, tool, jobs, 'random directory')
    ck.cov['random runs'] = len(jobs)
    ck.assumptions.append('outputs in other directories and -dump-templates (which always writes its files) are judged by C19 and C22')


c.main(check, 'C18', 'model_checking')
