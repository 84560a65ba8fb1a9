#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py   (SPEC defines id, property, needs, breaks, edits, demo, files)

Works in the scratch copy /tmp/plant/repo: applies the edits, builds, runs the stable tests, the demonstration
(must fail) and the property's quick check (reports whether it caught it), then undoes the edits and runs the
demonstration again (must pass).  Kept as seeded/<id>/ if all of that is confirmed."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = '/tmp/plant'
R = P + '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def prepare():
    if not os.path.isdir(R):
        os.makedirs(P + '/vp', exist_ok=True)
        sh(f"cp -r /opt/vp/*.py /opt/vp/*.sh /opt/vp/*.json /opt/vp/tools.txt {P}/vp/; sed -i 's#/repo#{R}#g; s#/opt/vp#{P}/vp#g' {P}/vp/*.py {P}/vp/*.sh; git clone -q /repo {R}")
    sh(f'git -C {R} checkout -q -- . && git -C {R} pull -q')


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    prepare()
    d = os.path.join(V, 'seeded', ns['id'])
    for f, old, new in ns['edits']:
        p = os.path.join(R, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    if any(f.endswith('lex.l') for f, _, _ in ns['edits']):
        r = sh(f'cd {R}/src && flex --noline -o lex.yy.c lex.l')
        assert r.returncode == 0, r.stdout
    diff = sh(f'git -C {R} diff').stdout
    tmp = P + '/demo-' + ns['id']
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for n, t in {**ns.get('files', {}), 'demo.sh': ns['demo']}.items():
        open(os.path.join(tmp, n), 'w').write(t)

    def demo():
        r = sh(['bash', tmp + '/demo.sh'], cwd=R, timeout=300)
        return r.returncode, r.stdout.decode('utf8', 'replace')[-1500:]
    try:
        r = sh(['bash', P + '/vp/build.sh'])
        if r.returncode:
            print('BUILD FAILED', r.stdout.decode()[-3000:])
            return 1
        r = sh(['bash', P + '/vp/test.sh', P + '/o.json'])
        o = json.load(open(P + '/o.json'))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        if stable - set(o['passed']):
            print('TESTS FAIL', stable - set(o['passed']))
            return 1
        rc, out = demo()
        print('demo with bug:', rc, out[-500:])
        if rc == 0:
            print('DEMO PASSES WITH THE BUG')
            return 1
        for prop in ns.get('check', [ns['property']]):
            m = json.load(open(V + '/MANIFEST.json'))
            cmd = [c['quick_cmd'] for c in m['checks'] if c['property'] == prop]
            if cmd:
                e = dict(os.environ, GDL_REPO=R)
                r = sh(cmd[0], cwd=V, env=e)
                print(f'check {prop}:', {0: 'MISSED', 1: 'caught'}.get(r.returncode, f'rc {r.returncode}'), r.stdout.decode('utf8', 'replace')[:600])
    finally:
        sh(f'git -C {R} checkout -q -- .')
        sh(['bash', P + '/vp/build.sh'])
    rc, out = demo()
    print('demo without bug:', rc, out[-800:] if rc else '')
    if rc:
        return 1
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'wb').write(diff)
    for n in os.listdir(tmp):
        shutil.copy(os.path.join(tmp, n), d)
    json.dump({'property': ns['property'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(tmp)
    r = sh(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'])
    print('kept' if r.returncode == 0 else 'PATCH DOES NOT APPLY')


sys.exit(main())
