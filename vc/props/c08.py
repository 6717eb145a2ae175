"""C08: reported poles, zeros and gain are those of the running filter."""
from lib import *
from props.c07 import polys
import contracts


def anysec(ex, st, p, nm='s'):
    """assume non-zero leading coefficients of the section at p"""
    c = coefs(ex, st, p)
    st.assume(nt(feq(c['a0'], FC(0))))
    st.assume(nt(feq(c['b0'], FC(0))))
    return c


def roots(ck, what, pc, c, pz):
    """pz = (p1,p2,z1,z2): a0 z^2 + a1 z + a2 = a0 (z-p1)(z-p2), b likewise"""
    p1, p2, z1, z2 = pz
    for nm, r1, r2, k0, k1, k2 in (('poles', p1, p2, c['a0'], c['a1'], c['a2']), ('zeros', z1, z2, c['b0'], c['b1'], c['b2'])):
        s, t = cadd(r1, r2), cmul(r1, r2)
        ck.eq('%s: sum of the %s' % (what, nm), pc, k0 * s[0], -k1)
        ck.eq('%s: product of the %s' % (what, nm), pc, k0 * t[0], k2)
        ck.eq('%s: sum of the %s is real' % (what, nm), pc, s[1], FC(0))
        ck.eq('%s: product of the %s is real' % (what, nm), pc, t[1], FC(0))


def section(ck):
    ex = Executor(ck.m)
    st = State()
    b, c0 = biquad(ex, st)
    c = anysec(ex, st, b)
    r = ex.new_flat(st, 'bps', size(ex, 'bps'))
    n = 0
    for o in run(ex, 'bps_of', [r, b], st):
        if o.kind != 'ret':
            ck.holds('BiquadPoleState accepts every section', o.st.pc, FALSE)
            continue
        n += 1
        pz = pair_vals(ex, o.st, r)
        roots(ck, 'BiquadPoleState', o.st.pc, c, pz)
        g = one(ex, 'bps_gain', [r], o.st).val
        ck.eq('BiquadPoleState: gain is b0/a0', o.st.pc, g, c['b0'] / c['a0'])
        ck.feasible('BiquadPoleState', o.st.pc)
        # rebuilding
        b2 = ex.new_flat(o.st, ex.fresh('rebuilt'), size(ex, 'bq'), inp=True)
        for f in run(ex, 'bq_form', [b2, r], o.st):
            if f.kind != 'ret':
                ck.holds('a section can be rebuilt from its reported poles and zeros', f.st.pc, FALSE)
                continue
            d = coefs(ex, f.st, b2)
            for k in ('a1', 'a2', 'b0', 'b1', 'b2'):
                ck.eq('rebuilt section: %s/a0' % k, f.st.pc, d[k] / d['a0'], c[k] / c['a0'])
    ck.ok('BiquadPoleState returns', n > 0)
    ck.use(ex)


def vec(ex, st, fnm, q):
    """calls a function returning a vector; yields (outcome, data pointer, size term)"""
    v = ex.new_flat(st, ex.fresh('vec'), 24)
    for o in run(ex, fnm, [q, v], st):
        if o.kind == 'ret':
            yield o, ex.load(o.st, v, ir.PTR), ex.load(o.st, v.plus(8), ir.Ty('i', 64))
        else:
            yield o, None, None


def bq_vec(ck):
    ex = Executor(ck.m)
    st = State()
    b, _ = biquad(ex, st)
    c = anysec(ex, st, b)
    for o, d, n in vec(ex, st, 'bq_pz', b):
        if o.kind != 'ret':
            ck.holds('Biquad::getPoleZeros accepts every section', o.st.pc, FALSE)
            continue
        ck.eq('Biquad::getPoleZeros: one entry', o.st.pc, n, IC(1))
        roots(ck, 'Biquad::getPoleZeros', o.st.pc, c, pair_vals(ex, o.st, d))
    ck.use(ex)


def elem(ex, q, i, st, fnm='cas_at'):
    o = [x for x in run(ex, fnm, [q, i], st) if x.kind == 'ret']
    if len(o) != 1:
        raise Unsupported('section access')
    return o[0]


def cas(ck, N=None):
    """entry i of Cascade::getPoleZeros, for an arbitrary i below an arbitrary number of sections"""
    ex = Executor(ck.m)
    st = State()
    q, arr, M, n, st = cascade(ex, st, M=IC(N) if N else None)
    if N:
        st.assume(ieq(n, IC(N)))
    for i in range(N or 0):
        anysec(ex, st, elem(ex, q, IC(i), st).val)
    found = 0
    for o, d, m in vec(ex, st, 'cas_pz', q):
        if o.kind != 'ret':
            if N:
                ck.holds('Cascade::getPoleZeros accepts every section', o.st.pc, FALSE)
            continue
        found += 1
        ck.eq('Cascade::getPoleZeros: one entry per section', o.st.pc, m, n)
        for i, s in entries(o.st, n, N):
            c = anysec(ex, s, elem(ex, q, i, s).val)
            roots(ck, 'Cascade::getPoleZeros entry %s' % (i,), s.pc, c, pair_vals(ex, s, d.plus(imul(i, IC(size(ex, 'pair'))))))
        ck.feasible('Cascade::getPoleZeros', o.st.pc)
    ck.ok('Cascade::getPoleZeros returns', found > 0)
    ck.use(ex)


def proto(ck, N=None):
    """PoleFilterBase2::getPoleZeros reports the pairs of the digital layout; setLayout makes section i from pair i"""
    ex = Executor(ck.m)
    st = State()
    q, arr, M, n, st = cascade(ex, st, M=IC(N) if N else None)
    l, pr, cap, np, st = layout(ex, st, cap=IC(2 * N) if N else None)
    if N:
        st.assume(ieq(np, IC(2 * N - 1)))
        # conjugate pairs; the other shapes are covered by C07
        for i in range(N):
            p1, p2, z1, z2 = pair_vals(ex, st, elem(ex, l, IC(i), st, 'lay_at').val)
            for a, b in ((p1, p2), (z1, z2)):
                st.assume(nt(feq(a[1], FC(0))))
                st.assume(feq(b[0], a[0]))
                st.assume(feq(b[1], -a[1]))
    cnt = idiv(iadd(np, IC(1)), IC(2))
    found = 0
    for o in run(ex, 'cas_layout', [q, l], st):
        if o.kind != 'ret':
            continue
        for i, s in entries(o.st, cnt, N):
            found += 1
            num = one(ex, 'cas_num', [q], s).val
            ck.eq('setLayout: one section per pair', s.pc, num, cnt)
            a = elem(ex, q, i, s)
            c = coefs(ex, a.st, a.val)
            pa = elem(ex, l, i, a.st, 'lay_at')
            roots(ck, 'setLayout: section %s' % (i,), pa.st.pc, c, pair_vals(ex, pa.st, pa.val))
        ck.feasible('setLayout', o.st.pc)
    ck.ok('setLayout returns', found > 0)
    ck.use(ex)


def designed(ck, key):
    """after a setup, a design reports the pairs of the very layout its sections were made from"""
    S = contracts.Setup(ck, key)
    ex, found = S.ex, 0
    for o in S.outs:
        if o.kind != 'ret':
            continue
        c = [x for x in S.calls(o) if x[0] == 'layout']
        ck.ok('%s: setup makes the sections once' % key, len(c) == 1, len(c))
        if len(c) != 1:
            continue
        _, cq, l, ls = c[0]
        np = one(ex, 'lay_num', [l], ls.clone()).val
        cnt = idiv(iadd(np, IC(1)), IC(2))
        for r, d, m in vec(ex, o.st.clone(), 'op_%s_pz' % key, S.q):
            if r.kind != 'ret':
                ck.holds('%s::getPoleZeros returns after a setup' % key, r.st.pc, FALSE)
                continue
            ck.eq('%s::getPoleZeros: one entry per section' % key, r.st.pc, m, cnt)
            ck.eq('%s: number of sections' % key, r.st.pc, one(ex, 'op_%s_num' % key, [S.q], r.st.clone()).val, cnt)
            for i, s in entries(r.st, cnt):
                found += 1
                got = pair_vals(ex, s, d.plus(imul(i, IC(size(ex, 'pair')))))
                s0 = ls.clone()
                s0.pc = s.pc
                want = pair_vals(ex, s0, elem(ex, l, i, s0, 'lay_at').val)
                for g, w in zip([x for y in got for x in y], [x for y in want for x in y]):
                    ck.same('%s::getPoleZeros: entry %s is the pair section %s was made from' % (key, i, i), s.pc, g, w)
    ck.ok('%s: setup returns' % key, found > 0)
    ck.use(ex)


def inherited(ck, p, what):
    """RBJ and custom sections report what Biquad reports"""
    ex = Executor(ck.m)
    st = State()
    q, st = new(ex, st, p)
    arbitrary(ex, st, q)
    b = one(ex, p + '_bq', [q], st.clone()).val
    c = anysec(ex, st, b)
    n = 0
    for o, d, m in vec(ex, st, p + '_pz', q):
        if o.kind != 'ret':
            ck.holds('%s::getPoleZeros accepts every section' % what, o.st.pc, FALSE)
            continue
        n += 1
        ck.eq('%s::getPoleZeros: one entry' % what, o.st.pc, m, IC(1))
        roots(ck, '%s::getPoleZeros' % what, o.st.pc, c, pair_vals(ex, o.st, d))
    ck.ok('%s::getPoleZeros returns' % what, n > 0)
    ck.use(ex)


def check(ck):
    ck.m = mod('core', 'open')
    for key in FAM:
        ck.group('%s::getPoleZeros' % key, lambda: designed(ck, key))
    for c in RBJ:
        ck.group('RBJ::%s::getPoleZeros' % c, lambda: inherited(ck, 'rbj_' + c, 'RBJ::' + c))
    for c in ('OnePole', 'TwoPole'):
        ck.group('Custom::%s::getPoleZeros' % c, lambda: inherited(ck, 'cu_' + c, 'Custom::' + c))
    ck.group('BiquadPoleState', lambda: section(ck))
    ck.group('Biquad::getPoleZeros', lambda: bq_vec(ck))
    ck.group('Cascade::getPoleZeros', lambda: cas(ck), lambda: [cas(ck, N) for N in (1, 2, 3)], 'up to 3 sections', exact=False)
    ck.group('Cascade::setLayout', lambda: proto(ck), lambda: [proto(ck, N) for N in (1, 2, 3)], 'up to 3 sections', exact=False)
