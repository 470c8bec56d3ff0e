#!/usr/bin/env python3
"""Plant a bug: mkseed.py ID SPEC.py   (SPEC defines property, needs, breaks, edits=[(file, old, new[, occurrence])], demo)
Validates in a scratch copy of /repo: patch applies, builds, stable tests pass, demo is 0 without / nonzero with it.
Writes /verif/seeded/ID/{patch.diff,meta.json,demo.sh,demo.cpp}."""
import json, os, shutil, subprocess, sys, tempfile
sid, spec = sys.argv[1], {}
exec(open(sys.argv[2]).read(), spec)
out = '/verif/seeded/' + sid
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as it should; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -I include "$here/demo.cpp" -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
'''
w = tempfile.mkdtemp(prefix='seed.')
try:
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    r = w + '/r'
    for e in spec['edits']:
        f, old, new = e[:3]
        occ = e[3] if len(e) > 3 else 0
        p = r + '/' + f
        s = open(p).read()
        i = -1
        for _ in range(occ + 1):
            i = s.find(old, i + 1)
            if i < 0:
                sys.exit('NOT FOUND: ' + old)
        open(p, 'w').write(s[:i] + new + s[i + len(old):])
    diff = subprocess.run(['git', '-C', r, 'diff'], stdout=subprocess.PIPE).stdout
    subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + '/patch.diff', 'wb').write(diff)
    open(out + '/demo.cpp', 'w').write(spec['demo'])
    open(out + '/demo.sh', 'w').write(spec.get('demo_sh', DEMO_SH))
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(out + '/meta.json', 'w'), indent=1)

    def demo():
        q = subprocess.run(['bash', out + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return q.returncode, q.stdout.decode()[-400:]
    a = demo()
    subprocess.run(['git', '-C', r, 'apply', out + '/patch.diff'], check=True)
    b = demo()
    print('demo unchanged:', a[0], '| patched:', b[0], b[1] if b[0] else '', a[1] if a[0] else '')
    ok = a[0] == 0 and b[0] != 0
    if ok:
        # build + tests in /repo itself with the patch applied, then undone
        subprocess.run(['git', '-C', '/repo', 'apply', out + '/patch.diff'], check=True)
        try:
            q = subprocess.run('bash /opt/vp/build.sh >%s/b.log 2>&1 && bash /opt/vp/test.sh %s/t.json >%s/t.log 2>&1' % (w, w, w), shell=True)
            t = json.load(open(w + '/t.json')) if os.path.exists(w + '/t.json') else {}
            base = json.load(open('/opt/vp/BASELINE.json'))
            names = base.get('stable', base.get('passed', base)) if isinstance(base, dict) else base
            passed = set(t.get('passed', []))
            miss = [n for n in names if n not in passed]
            print('build/test rc', q.returncode, 'stable tests not passing:', miss[:5])
            ok = not miss and bool(passed)
            c = []
            for pid in [spec['property']] + spec.get('also', []):
                x = subprocess.run(['python3', '/verif/check.py', pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd='/verif')
                lines = x.stdout.decode().strip().split('\n')
                print('check %s: rc=%d %s' % (pid, x.returncode, ' | '.join(l.strip()[:160] for l in lines if not l.startswith('    '))[:500]))
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    print(sid, 'OK' if ok else 'REJECTED')
    if not ok:
        shutil.rmtree(out, ignore_errors=True)
finally:
    shutil.rmtree(w, ignore_errors=True)
