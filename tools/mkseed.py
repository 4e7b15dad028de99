#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the definitions in tools/seeds.py and confirm each one in a
scratch copy of /repo: builds, passes the stable tests, demo passes without and fails with it."""
import os, sys, json, subprocess, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import seeds
DEMO = '''#!/bin/bash
# cwd: the repository, after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O1 -w %(flags)s -I"$D" -I"$PWD/curves/include" -I/usr/include/eigen3 "$D/demo.cpp" %(src)s -o "$T/demo" -lglog -lboost_thread -lboost_system -lpthread || exit 3
cd "$T" && timeout 200 ./demo
'''
def sh(c, cwd=None, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode('utf8', 'replace')
def main():
    want = sys.argv[1:] or [s['id'] for s in seeds.SEEDS]
    base = '/tmp/seedtree'
    for s in seeds.SEEDS:
        if s['id'] not in want: continue
        shutil.rmtree(base, ignore_errors=True)
        sh('cp -a /repo %s' % base)
        d = os.path.join(V, 'seeded', s['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f, old, new in s['edits']:
            p = os.path.join(base, f); t = open(p).read()
            n = t.count(old)
            if n != 1: print(s['id'], 'EDIT MATCHES', n, 'TIMES:', old[:60]); break
            open(p, 'w').write(t.replace(old, new))
        else:
            rc, diff = sh('git diff', base)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.cpp'), 'w').write(seeds.PRE + s['demo'])
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'flags': s.get('flags', ''), 'src': ' '.join('"$PWD/%s"' % x for x in s['src'])})
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            if s.get('kindr') == 'ros':
                for x in os.listdir(os.path.join(V, 'stubs/ros')): shutil.copytree(os.path.join(V, 'stubs/ros', x), os.path.join(d, x))
                shutil.copytree(os.path.join(V, 'stubs/se3/kindr'), os.path.join(d, 'kindr'))
            elif s.get('kindr'): shutil.copytree(os.path.join(V, 'stubs', '' if s['kindr'] is True else s['kindr'], 'kindr'), os.path.join(d, 'kindr'))
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            # confirm in a scratch build; the scripts of /opt/vp name /repo, so redirect them
            for x in ('build.sh', 'test.sh'):
                t = open('/opt/vp/' + x).read().replace('/repo', base).replace('/opt/vp/build.sh', '/tmp/seed-build.sh').replace('/opt/vp/cmake', '/tmp/seed-cmake')
                open('/tmp/seed-' + x, 'w').write(t)
            shutil.rmtree('/tmp/seed-cmake', ignore_errors=True); shutil.copytree('/opt/vp/cmake', '/tmp/seed-cmake')
            for r, _, fs in os.walk('/tmp/seed-cmake'):
                for f in fs:
                    q = os.path.join(r, f); t = open(q).read()
                    if '/repo' in t: open(q, 'w').write(t.replace('/repo', base))
            shutil.rmtree(os.path.join(base, '_build'), ignore_errors=True)
            rc, o = sh('bash /tmp/seed-test.sh /tmp/seed-out.json', base)
            res = json.load(open('/tmp/seed-out.json')); stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            missing = [x for x in stable if x not in res['passed']]
            bad, ob = sh('bash %s/demo.sh' % d, base)
            good, og = sh('bash %s/demo.sh' % d, '/repo')
            ok = not missing and good == 0 and bad not in (0, 3)
            print(s['id'], s['property'], 'OK' if ok else 'NOT OK', 'demo clean=%d patched=%d' % (good, bad), 'tests lost:', missing, '' if ok else (o[-300:] if missing else '') + og[-500:] + ob[-500:], flush=True)
    shutil.rmtree(base, ignore_errors=True)
    for x in ('/tmp/seed-cmake',): shutil.rmtree(x, ignore_errors=True)
main()
