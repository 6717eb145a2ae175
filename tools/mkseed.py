"""mkseed.py: write /verif/seeded/<id> from an edit description (python file defining SEEDS)"""
import sys, os, subprocess, json, runpy, shutil, tempfile
DEMO = '''#!/bin/bash
# exit 0: the property holds; non-zero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
g++ -std=c++11 -O1 -w -I/repo -I/repo/iir "$d/demo.cpp" /repo/iir/*.cpp -o "$t/demo" || exit 2
timeout 120 "$t/demo"
'''
W = tempfile.mkdtemp(prefix='mkseed.')
subprocess.check_call('git clone -q /repo %s/r' % W, shell=True)
S = runpy.run_path(sys.argv[1])['SEEDS']
want = sys.argv[2:]
for s in S:
    if want and s['id'] not in want:
        continue
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run('git -C %s/r status --porcelain' % W, shell=True, capture_output=True, text=True).stdout.strip()
    for f, a, b in s['edits']:
        p = W + '/r/' + f
        t = open(p).read()
        assert t.count(a) >= 1, (s['id'], 'text not found', a)
        n = s.get('nth', 0)
        i = -1
        for _ in range(n + 1):
            i = t.index(a, i + 1)
        t = t[:i] + b + t[i + len(a):]
        open(p, 'w').write(t)
    df = subprocess.run('git -C %s/r diff' % W, shell=True, capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(df)
    subprocess.run('git -C %s/r checkout -q -- .' % W, shell=True)
    open(d + '/demo.cpp', 'w').write('#include "Iir.h"\n#include <cstdio>\n#include <cmath>\n#include <cstring>\n#include <memory>\n#include <stdexcept>\n#include <complex>\nusing namespace Iir;\n' + s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(s['id'], len(df.split('\n')), 'lines')
shutil.rmtree(W)
