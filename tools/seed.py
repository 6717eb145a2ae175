#!/usr/bin/env python3
"""seed.py ID [--check]: confirm /verif/seeded/ID in a scratch copy of /repo (applies, builds, passes the stable tests,
demo 0 without / non-zero with), then run the property's check against it in /repo and undo."""
import sys, os, subprocess, json, shutil, tempfile
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
chk = '--check' in sys.argv
only = '--only' in sys.argv
def sh(c, cwd=None, to=700):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=to)
for i in ids:
    d = '/verif/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    if not only:
        # the build script names /repo, so the working tree is patched and restored
        assert not sh('git -C /repo status --porcelain').stdout.strip()
        sh('bash /opt/vp/build.sh')
        t = tempfile.mkdtemp(prefix='seed.')
        shutil.copytree(d, t + '/x')
        r0 = sh('bash %s/x/demo.sh' % t, '/repo', 300)
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode:
            print(i, 'DOES NOT APPLY', a.stderr); continue
        b = sh('bash /opt/vp/build.sh')
        ts = sh('bash /opt/vp/test.sh /tmp/seed_t.json')
        r1 = sh('bash %s/x/demo.sh' % t, '/repo', 300)
        print(i, m['property'], 'demo', r0.returncode, r1.returncode, 'build', b.returncode, 'tests', ts.stdout.strip().split('\n')[-1], (r0.stdout + r0.stderr)[-200:] if r0.returncode else '', flush=True)
        shutil.rmtree(t)
    else:
        sh('git -C /repo apply %s/patch.diff' % d)
    if chk:
        import time; t0 = time.time()
        c = sh('VERIF_SEED=1 VERIF_TIER=quick python3-vt vc/check.py %s' % m['property'], '/verif')
        L = c.stdout.strip().split('\n')
        print('   check exit', c.returncode, '%.0fs' % (time.time() - t0), L[0][:150], '|', L[-1][:200], flush=True)
        for l in L[1:4]: print('      ', l[:220])
    sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
