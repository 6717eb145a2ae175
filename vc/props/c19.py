"""C19: designs are normalised to their reference gain."""
from kernel import *
import props.c09 as c09

NOMINAL = 'Butterworth/Chebyshev'


def reference(ck, ns, cls):
    """the reference a prototype announces (part of the contract of design)"""
    what = '%s::%s' % (ns, cls)
    P = Proto(ck, ns, cls)
    P.st.assume(par_ok(ns, cls, P.par))
    P.st.assume(ile(IC(1), P.n))
    n = 0
    for o in P.design():
        if o.kind != 'ret' or P.unchanged(P.st, o.st):
            continue
        for odd in (False, True):
            s = o.st.clone()
            s.assume(ieq(irem2(P.n), IC(int(odd))))
            if not smt.feasible(s.pc):
                continue
            n += 1
            w, g = P.normal(s)
            W, G = spec_normal(ns, cls, P.par, odd)
            ck.eq('%s: reference frequency, %s order' % (what, 'odd' if odd else 'even'), s.pc, w, W)
            ck.eq('%s: reference gain, %s order' % (what, 'odd' if odd else 'even'), s.pc, g, G)
    ck.ok('%s: designs' % what, n >= 2, n)


def carried(ck, t, w):
    """reference a transform passes on: gain unchanged, frequency mapped. w: reference frequency of the prototype"""
    T = Trans(ck, t, 'all-pole')
    n = 0
    wv = {T.a['W']: w}
    for o in T.outs:
        if o.kind != 'ret':
            continue
        n += 1
        W, G = T.normal(o.st)
        if T.ab_:
            W, G = T.ab_.concrete(W, G)
        W = subst(W, wv)
        pc = tuple(subst(x, wv) for x in T.ab_.concrete(*[c for c in o.st.pc if not tm.atoms_of(c, lambda x: x.op in ('sel',))]))
        what = '%sTransform' % t
        ck.eq('%s: reference gain' % what, pc, G, T.a['G'])
        if t == 'LowPass':
            ck.eq('%s: reference frequency' % what, pc, W, w)
        elif t == 'HighPass':
            ck.eq('%s: reference frequency' % what, pc, W, PI - w)
        elif t == 'BandStop':
            ck.eq('%s: reference frequency is the edge farther from the centre' % what, pc, W, ite(flt(T.f[0], FC(Fraction(1, 4))), PI, FC(0)))
        elif w is FC(0):
            # the digital frequency W with tan(W/2)^2 = tan(lower/2) tan(upper/2): the image of the analogue frequency 0
            lo, hi = T.edges()
            h = FC(H)
            tl, th = tm.fn('tan', lo * h), tm.fn('tan', hi * h)
            ref = FC(2) * tm.fn('atan', sqrt(th * tl))
            ck.eq('%s: reference frequency' % what, pc, W, ref)
            r = fvar('r')           # sqrt(tan tan)
            ck.eq('%s: the tangent of half the reference frequency' % what, (flt(FC(0), r),), sin(tm.fn('atan', r)), r * cos(tm.fn('atan', r)))
            a = cos((hi + lo) * h) / cos((hi - lo) * h)
            ck.eq('%s: the reference frequency is the image of the analogue centre' % what, pc, a * (FC(1) + tl * th), FC(1) - tl * th)
    ck.ok('%sTransform returns' % t, n > 0)


def check(ck):
    ck.m = mod('core', 'open')
    for ns, cls in PROTO:
        ck.group('%s::%s' % (ns, cls), lambda: reference(ck, ns, cls))
    for t in TRANS:
        for w in (FC(0), PI):
            ck.group('%sTransform, reference %s' % (t, 'DC' if w is not PI else 'infinity'), lambda: carried(ck, t, w))
    ck.group('Cascade::setLayout', lambda: check_layout(ck, rest=False), lambda: [bounded(ck, N) for N in (1, 2)], 'up to 2 sections', exact=False)
    ck.group('Cascade::response', lambda: c09.cas(ck), lambda: [c09.cas(ck, N) for N in (1, 2, 3)], 'up to 3 sections', exact=False)
    for key in FAM:
        ck.group(key, lambda: check_setup(ck, key))
    ck.contracts['design of the six analogue prototypes'] = 'reference frequency 0 (low-pass) or infinity, written as pi (shelves); reference gain 1, 10^(-ripple/20) for even Chebyshev I'
    ck.contracts['LowPassTransform, HighPassTransform, BandPassTransform, BandStopTransform'] = 'reference gain passed on, reference frequency w, pi - w, the image of the analogue centre, the edge farther from the centre'
    ck.contracts['Iir::Cascade::setLayout'] = 'the numerator of section 0 is scaled by normalGain / |response(normalW / 2 pi)| of the unscaled sections'
    ck.contracts['Iir::Cascade::response'] = 'the product over the sections'
    ck.contracts['setup(order, ..) of every Butterworth/Chebyshev class'] = 'composition of design, transform and setLayout; band shelves set the reference to gain 1 at the farther edge'


def bounded(ck, N):
    """N sections of conjugate pairs, everything inlined: the squared magnitude at the reference is the squared reference gain"""
    ex = Executor(ck.m)
    st = State()
    q, arr, M, n0, st = cascade(ex, st, M=IC(N))
    l, pr, cap, np, st = layout(ex, st, cap=IC(2 * N))
    st.assume(ieq(np, IC(2 * N)))
    for i in range(N):
        p1, p2, z1, z2 = pair_vals(ex, st, stage_at(ex, l, IC(i), st, 'lay_at').val)
        for a, b in ((p1, p2), (z1, z2)):
            st.assume(nt(feq(a[1], FC(0))))
            st.assume(feq(b[0], a[0]))
            st.assume(feq(b[1], -a[1]))
    W, G = one(ex, 'lay_w', [l], st.clone()).val, one(ex, 'lay_g', [l], st.clone()).val
    for o in run(ex, 'cas_layout', [q, l], st):
        if o.kind != 'ret':
            continue
        nu, d = (FC(1), FC(0)), (FC(1), FC(0))
        for i in range(N):
            a, b = c09.tf(coefs(ex, o.st, arr.plus(i * size(ex, 'bq'))), W)
            nu, d = cmul(nu, a), cmul(d, b)
        nz = tuple(nt(feq(x[0] * x[0] + x[1] * x[1], FC(0))) for x in (nu, d))
        ck.eq('squared magnitude at the reference', o.st.pc + nz, nu[0] * nu[0] + nu[1] * nu[1], G * G * (d[0] * d[0] + d[1] * d[1]))
