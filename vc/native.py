"""Native replay: a C++ observer per property compiled against /repo's current sources."""
import os, subprocess, glob, time, shlex
import ir
from lib import unusual

HERE = os.path.dirname(os.path.abspath(__file__))


def run(pid, tier, seed, work, consts=()):
    src = os.path.join(HERE, 'native', 'obs.cpp')
    if not os.path.exists(src):
        return {'failed': False, 'available': False}
    exe = os.path.join(work, 'obs_' + pid)
    sizes = sorted({16, 33} | {s + d for s in unusual() for d in (-1, 0, 1) if s + d > 8})[:8]
    defs = ['-DEXTRA=' + ' '.join('X(%d)' % s for s in sizes)]
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if pid in ('C12',) else []
    cmd = ['g++', '-std=c++17', '-O0', '-w'] + defs + san + ['-I' + ir.REPO, '-I' + ir.REPO + '/iir', src] + ir.sources() + ['-o', exe]
    objs = []
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return {'failed': False, 'available': False, 'build_error': r.stderr[-2000:]}
    n = ('40' if tier == 'thorough' else '10') if pid == 'C12' else ('200' if tier == 'thorough' else '40')
    try:
        r = subprocess.run([exe, pid, str(seed), n] + list(consts), capture_output=True, text=True, timeout=400, env={**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0'})
    except subprocess.TimeoutExpired:
        return {'failed': False, 'available': True, 'timeout': True, 'cmd': ' '.join(cmd)}
    failed = r.returncode != 0
    return {'failed': failed, 'available': True, 'cmd': shlex.join(cmd) + ' && ' + ' '.join([exe, pid, str(seed), n] + list(consts)), 'output': (r.stdout + r.stderr)[-4000:], 'summary': r.stdout.strip().split('\n')[-1][:300]}
