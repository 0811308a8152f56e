#!/usr/bin/env python3
"""Try seeded bugs in a scratch copy of /repo (never in /repo itself).
usage: plant.py [--notest] [--nocheck] ID...   (IDs are directories of /verif/seeded)
For each: patch applies, builds, stable tests pass, demo 0 on clean / nonzero patched, check of its property fails."""
import json, os, subprocess, sys, shutil, time
W = os.environ.get('PLANT_W', '/tmp/plant')
R = os.path.join(W, 'repo')


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prep():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(R):
        print(sh('cp -a /repo %s' % R).stdout)
        for f in ('build.sh', 'test.sh'):
            s = open('/opt/vp/' + f).read().replace('/repo', R).replace('/opt/vp/build.sh', W + '/build.sh')
            open(os.path.join(W, f), 'w').write(s)
        sh("grep -rl '/repo/_build' %s/_build --include=CMakeCache.txt --include=build.ninja --include=*.cmake | xargs sed -i 's#/repo#%s#g'" % (R, R))
        sh("find %s/_build -name CMakeCache.txt -exec sed -i 's#CMAKE_HOME_DIRECTORY:INTERNAL=/repo#CMAKE_HOME_DIRECTORY:INTERNAL=%s#;s#/repo/_build#%s/_build#g' {} +" % (R, R, R))
    sync()


def sync():
    sh('git -C %s checkout -q -- . ; git -C %s clean -fdq include; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (R, R, R, R))


def main():
    a = sys.argv[1:]
    notest = '--notest' in a; nocheck = '--nocheck' in a; ids = [x for x in a if not x.startswith('--')]
    prep()
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('passed') or base.get('stable') or base.get('tests') or []
    for i in ids:
        d = '/verif/seeded/' + i
        meta = json.load(open(d + '/meta.json'))
        sync(); r = {}
        t0 = time.time()
        r['demo_clean'] = sh('bash %s/demo.sh' % d, cwd=R).returncode
        ap = sh('git apply %s/patch.diff' % d, cwd=R)
        if ap.returncode: print(i, 'PATCH DOES NOT APPLY', ap.stdout); continue
        dm = sh('bash %s/demo.sh' % d, cwd=R); r['demo_patched'] = dm.returncode
        if not notest:
            t = sh('bash %s/test.sh %s/out.json' % (W, W))
            o = json.load(open(W + '/out.json')); miss = [x for x in stable if x not in o['passed']]
            r['tests'] = 'pass' if not miss and o['passed'] else 'FAIL %s %s' % (miss[:5], t.stdout[-1500:] if not o['passed'] else '')
        if not nocheck:
            c = sh('python3 /verif/check.py %s' % meta['property'], cwd='/verif', env=dict(os.environ, VF_REPO=R, VF_EVID='/tmp/plant/evid', VERIF_SEED='1', VERIF_TIER='quick'))
            r['check'] = c.returncode; r['lines'] = [l[:160] for l in c.stdout.splitlines() if 'VIOLATION' in l][:3]
            if c.returncode not in (0, 1): r['out'] = c.stdout[-600:]
        ok = r['demo_clean'] == 0 and r['demo_patched'] != 0 and r.get('tests', 'pass') == 'pass' and r.get('check', 1) == 1
        print('OK ' if ok else 'BAD', i, meta['property'], '%.0fs' % (time.time() - t0), r, flush=True)
        if not ok and r['demo_patched'] == 0: print(dm.stdout[-500:])
    sync()


main()
