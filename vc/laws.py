"""C20-C23: the magnitude laws. Contracts of design, the transforms, setLayout, response and setup (verified against the code) are
the premises of the theorems in lemmas/Bridge.lean (Filter), which state the laws for the response of the filter."""
import os, sys, re, shutil, subprocess, tempfile, time
from kernel import *
import props.c09 as c09
import props.c19 as c19
import props.c26 as c26

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}


def xy(T, e, half):
    """the functions X, Y of the frequency: the digital point e (half: cosine and sine of half its angle) is the image of
    the analogue frequency X / Y"""
    if T.k == 1:
        f = T.fn('tan', PI * T.f[0])
        if T.t == 'LowPass':
            return half[1], f * half[0]
        return half[0], -half[1] / f
    a, t = T.ab()
    if T.t == 'BandPass':
        return e[0] - a, -t * e[1]
    return t * e[1], e[0] - a


def theorems(ck, thms):
    """the Lean theorems over the definitions rendered from the contracts"""
    gen = subprocess.run([sys.executable, os.path.join(V, 'vc', 'lemma.py')], capture_output=True, text=True, timeout=300)
    if gen.returncode:
        raise Unsupported('rendering the contracts: ' + gen.stderr[-300:])
    src = open(V + '/lemmas/Proto.lean').read() + gen.stdout + open(V + '/lemmas/Laws.lean').read() + open(V + '/lemmas/Bridge.lean').read()
    if re.search(r'\b(sorry|axiom|native_decide|unsafe|implemented_by)\b', src):
        raise Unsupported('lemmas are incomplete')
    for t in thms:
        src += '\n#print axioms Iir.%s\n' % t
    d = tempfile.mkdtemp(prefix='iirlean')
    t0 = time.time()
    try:
        f = os.path.join(d, 'All.lean')
        open(f, 'w').write(src)
        p = subprocess.run(['lean', f], capture_output=True, text=True, timeout=600, cwd=d)
    finally:
        shutil.rmtree(d)
    out = p.stdout + p.stderr
    err = [l for l in out.splitlines() if 'error' in l]
    if p.returncode or err:
        raise Unsupported('lean: ' + ' '.join(err or [out[-300:]])[:300])
    for t in thms:
        m = re.search(r"'Iir\.%s' depends on axioms: \[([^\]]*)\]" % re.escape(t), out)
        ax = set(x.strip() for x in m.group(1).replace('\n', ' ').split(',')) if m else None
        ck.add('theorem %s' % t, 'proved' if ax is not None and ax <= AXIOMS else 'undecided', 'Lean (Mathlib)', (time.time() - t0) / len(thms), None if ax is not None else 'not found')


def standalone(ck, name, thm):
    """a Lean file of its own with one theorem"""
    src = open(os.path.join(V, 'lemmas', name)).read()
    if re.search(r'\b(sorry|axiom|native_decide|unsafe|implemented_by)\b', src):
        raise Unsupported('lemmas are incomplete')
    if (name, thm) not in DONE:
        d = tempfile.mkdtemp(prefix='iirlean')
        try:
            f = os.path.join(d, 'One.lean')
            open(f, 'w').write(src + '\n#print axioms Iir.%s\n' % thm)
            p = subprocess.run(['lean', f], capture_output=True, text=True, timeout=300, cwd=d)
        finally:
            shutil.rmtree(d)
        m = re.search(r"'Iir\.%s' depends on axioms: \[([^\]]*)\]" % thm, p.stdout)
        DONE[name, thm] = p.returncode == 0 and m is not None and set(x.strip() for x in m.group(1).replace('\n', ' ').split(',')) <= AXIOMS
    ck.add('theorem %s' % thm, 'proved' if DONE[name, thm] else 'undecided', 'Lean (Mathlib)')


DONE = {}


def check(ck, protos, shape, trans, keys, thms):
    ck.m = mod('core', 'open')
    import props.c16 as c16
    ck.group('theorems', lambda: theorems(ck, thms + ['bridge', 'edges', 'ends', 'ref0_X', 'refInf_Y', 'lowPass_mapped', 'highPass_mapped']))
    for ns, cls in protos:
        ck.group('%s::%s' % (ns, cls), lambda: check_design(ck, ns, cls))
        ck.group('%s::%s: skipped designs' % (ns, cls), lambda: check_history(ck, ns, cls))
    for t in trans:
        ck.group('%sTransform (%s)' % (t, shape), lambda: check_trans(ck, Trans(ck, t, shape), '%sTransform (%s)' % (t, shape)))
        ck.group('%sTransform: reference' % t, lambda: c19.carried(ck, t, PI if shape == 'shelf' else FC(0)))
    ck.group('Cascade::setLayout', lambda: check_layout(ck, rest=False))
    ck.group('Biquad::response', lambda: c09.section(ck))
    ck.group('Cascade::response', lambda: c09.cas(ck), lambda: [c09.cas(ck, N) for N in (1, 2, 3)], 'up to 3 sections', exact=False)
    for key in keys:
        ck.group(key, lambda: check_setup(ck, key))
        ck.group('%s::response' % key, lambda: c09.forward(ck, key))
    for ns, cls in protos:
        ck.contracts['Iir::%s::%s::design' % (ns, cls)] = 'for every order and parameters in range: the poles, zeros and reference rendered as %s_%s_* in Lean' % (ns, cls)
    ck.contracts[', '.join(t + 'Transform' for t in trans)] = 'every digital pole and zero is the image of its analogue one (Image1, Image2 in Lean)'
    ck.contracts['Iir::Cascade::setLayout'] = 'section i has the roots of pair i (FromPair in Lean); scaled by normalGain / |response(normalW / 2 pi)| (Scaling)'
    ck.contracts['Iir::Biquad::response, Iir::Cascade::response'] = 'the transfer function; the product over the sections'
    ck.contracts['setup of ' + ', '.join(keys)] = 'composition of design, transform and setLayout'
