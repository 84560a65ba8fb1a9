"""Run a program many times (see runmany.c)."""
import os, struct, tempfile
from common import *

_driver = None


def _drv():
    global _driver
    if _driver is None:
        d = sub('runmany')
        r = run(['gcc', '-O1', '-w', '-o', d + '/runmany', os.path.join(VERIF, 'lib', 'runmany.c')])
        if r.returncode:
            raise Broken('runmany.c: ' + r.stderr.decode())
        _driver = d + '/runmany'
    return _driver


def many(exe, jobs, cwd=None, jobs_n=JOBS, secs=10, timeout=600):
    """jobs: list of (args, stdin bytes[, {cwd, limit, out, env}]); returns a list of (status, stdout, stderr), status < 0: signal, -14: too slow"""
    if not jobs:
        return []
    drv = _drv()
    w = tempfile.mkdtemp(prefix='many-', dir=scratch())
    cwd = cwd or sub('manycwd')
    with open(w + '/jobs', 'wb') as f:
        for job in jobs:
            args, inp = job[0], job[1]
            ext = job[2] if len(job) > 2 else None
            f.write(struct.pack('<I', len(args) | (0x80000000 if ext else 0)))
            for a in args:
                a = a if isinstance(a, bytes) else a.encode()
                f.write(struct.pack('<I', len(a)) + a)
            f.write(struct.pack('<I', len(inp)) + inp)
            if ext:
                d = ext['cwd'].encode()
                f.write(struct.pack('<I', len(d)) + d + struct.pack('<qII', ext.get('limit', -1), ext.get('out', 0), len(ext.get('env', ()))))
                for x in ext.get('env', ()):
                    f.write(struct.pack('<I', len(x)) + x.encode())
    r = run([drv, exe, w + '/jobs', w + '/res', str(jobs_n), str(secs), cwd], timeout=timeout)
    if r.returncode:
        raise Broken('runmany failed: ' + r.stderr.decode('utf8', 'replace'))
    out = [None] * len(jobs)
    for k in range(jobs_n):
        b = open(f'{w}/res.{k}', 'rb').read()
        p = 0
        while p < len(b):
            i, s, n = struct.unpack_from('<IiI', b, p)
            p += 12
            so = b[p:p + n]
            p += n
            n, = struct.unpack_from('<I', b, p)
            p += 4
            se = b[p:p + n]
            p += n
            out[i] = (s, so, se)
    shutil.rmtree(w, ignore_errors=True)
    if None in out:
        raise Broken('runmany lost results')
    return out
