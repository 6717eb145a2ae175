"""C07: sections built from poles and zeros have exactly these poles and zeros."""
from lib import *


def polys(ck, what, pc, c, p1, p2, z1, z2, scale=None):
    """(a0 + a1/z + a2/z^2) = a0 (1 - p1/z)(1 - p2/z) and b = a0 scale (1 - z1/z)(1 - z2/z)"""
    scale = scale if scale is not None else FC(1)
    for nm, r1, r2, k0, k1, k2, lead in (('denominator', p1, p2, c['a0'], c['a1'], c['a2'], c['a0']),
                                         ('numerator', z1, z2, c['b0'], c['b1'], c['b2'], c['a0'] * scale)):
        s = cadd(r1, r2)
        t = cmul(r1, r2)
        ck.eq('%s: leading coefficient of the %s' % (what, nm), pc, k0, lead)
        ck.eq('%s: sum of the roots of the %s' % (what, nm), pc, k1, -(lead * s[0]))
        ck.eq('%s: product of the roots of the %s' % (what, nm), pc, k2, lead * t[0])
        ck.eq('%s: %s is real (sum)' % (what, nm), pc, lead * s[1], FC(0))
        ck.eq('%s: %s is real (product)' % (what, nm), pc, lead * t[1], FC(0))


Z = None


def two(ck, entry):
    ex = Executor(ck.m)
    st = State()
    b = ex.new_flat(st, 'b', size(ex, 'bq'), inp=True)
    v = fv('pr', 'pi', 'zr', 'zi', 'qr', 'qi', 'yr', 'yi')
    p1, z1, p2, z2 = (v[0], v[1]), (v[2], v[3]), (v[4], v[5]), (v[6], v[7])
    g = None
    if entry == 'bq_twopole':
        outs = run(ex, entry, [b] + v, st)
    else:
        pr = ex.new_flat(st, 'pair', size(ex, 'bps' if entry == 'bq_form' else 'pair'), inp=True)
        if entry == 'bq_form':
            g = one(ex, 'bps_gain', [pr], st).val
        p1, p2, z1, z2 = pair_vals(ex, st, pr)
        outs = run(ex, entry, [b, pr], st)
    ok = an(matched(p1, p2), matched(z1, z2))
    n = 0
    for o in outs:
        if o.kind == 'ret':
            n += 1
            c = coefs(ex, o.st, b)
            polys(ck, entry, o.st.pc, c, p1, p2, z1, z2, g)
            ck.holds('%s: accepted poles and zeros are real or conjugate' % entry, o.st.pc, ok)
            ck.feasible(entry, o.st.pc)
        else:
            ck.ok('%s: std::invalid_argument' % entry, 'invalid_argument' in str(o.info), o.info)
            ck.holds('%s: only unmatched pairs are rejected' % entry, o.st.pc, nt(ok))
    ck.ok('%s returns' % entry, n > 0)
    ck.use(ex)


def onep(ck):
    ex = Executor(ck.m)
    st = State()
    b = ex.new_flat(st, 'b', size(ex, 'bq'), inp=True)
    v = fv('pr', 'pi', 'zr', 'zi')
    zero = (FC(0), FC(0))
    ok = an(feq(v[1], FC(0)), feq(v[3], FC(0)))
    for o in run(ex, 'bq_onepole', [b] + v, st):
        if o.kind == 'ret':
            c = coefs(ex, o.st, b)
            polys(ck, 'setOnePole', o.st.pc, c, (v[0], v[1]), zero, (v[2], v[3]), zero)
            ck.holds('setOnePole: accepted pole and zero are real', o.st.pc, ok)
        else:
            ck.ok('setOnePole: std::invalid_argument', 'invalid_argument' in str(o.info), o.info)
            ck.holds('setOnePole: only complex values are rejected', o.st.pc, nt(ok))
    ck.use(ex)


def custom(ck, which):
    ex = Executor(ck.m)
    st = State()
    q = ex.new_flat(st, 'b', size(ex, 'cu_' + which), inp=True)
    b = one(ex, 'cu_%s_bq' % which, [q], st).val
    n = 0
    if which == 'OnePole':
        k, p, z = fv('scale', 'pole', 'zero')
        a = [k, p, z]
        zero = (FC(0), FC(0))
        r = ((p, FC(0)), zero, (z, FC(0)), zero)
    else:
        k, pr, pt, zr, zt = fv('scale', 'poleRho', 'poleTheta', 'zeroRho', 'zeroTheta')
        a = [k, pr, pt, zr, zt]
        r = tuple((x * cos(t), x * sin(t) * s) for x, t in ((pr, pt), (zr, zt)) for s in (FC(1), FC(-1)))
    for o in run(ex, 'cu_%s_setup' % which, [q] + a, st):
        if o.kind == 'ret':
            n += 1
            polys(ck, 'Custom::%s' % which, o.st.pc, coefs(ex, o.st, b), *r, scale=k)
            ck.feasible(which, o.st.pc)
        else:
            ck.holds('Custom::%s accepts all values' % which, o.st.pc, FALSE)
    ck.ok('Custom::%s returns' % which, n > 0)
    ck.use(ex)


def lay(ck, which):
    """LayoutBase::add*: unmatched values are rejected, the stored pair is the given one"""
    ex = Executor(ck.m)
    st = State()
    l, arr, cap, n, st = layout(ex, st)
    st.assume(ile(iadd(n, IC(1 if which == 'lay_add1' else 2)), cap))
    st.assume(ieq(tm.irem(n, IC(2)), IC(0)))
    v = fv('pr', 'pi', 'zr', 'zi') + (fv('qr', 'qi', 'yr', 'yi') if which == 'lay_add2' else [])
    zero = (FC(0), FC(0))
    p1, z1 = (v[0], v[1]), (v[2], v[3])
    if which == 'lay_add1':
        p2, z2, ok = zero, zero, an(feq(v[1], FC(0)), feq(v[3], FC(0)))
    elif which == 'lay_addc':
        p2, z2, ok = (v[0], -v[1]), (v[2], -v[3]), TRUE
    else:
        p2, z2 = (v[4], v[5]), (v[6], v[7])
        ok = an(matched(p1, p2), matched(z1, z2))
    for o in run(ex, which, [l] + v, st):
        if o.kind == 'ret':
            ck.holds('%s: accepted values are matched' % which, o.st.pc, ok)
            for at in run(ex, 'lay_at', [l, idiv(n, IC(2))], o.st):
                if at.kind != 'ret':
                    ck.holds('%s: the new pair is accessible' % which, at.st.pc, FALSE)
                    continue
                got = pair_vals(ex, at.st, at.val)
                for a, w, nm in zip(got, (p1, p2, z1, z2), ('pole 1', 'pole 2', 'zero 1', 'zero 2')):
                    for i in (0, 1):
                        ck.eq('%s: stored %s' % (which, nm), at.st.pc, a[i], w[i])
        else:
            ck.ok('%s: std::invalid_argument' % which, 'invalid_argument' in str(o.info), o.info)
            ck.holds('%s: only unmatched values are rejected' % which, o.st.pc, nt(ok))
    ck.use(ex)


def check(ck):
    ck.m = mod('core')
    for e in ('bq_twopole', 'bq_pair', 'bq_form'):
        ck.group(e, lambda: two(ck, e))
    ck.group('setOnePole', lambda: onep(ck))
    for c in ('OnePole', 'TwoPole'):
        ck.group('Custom::' + c, lambda: custom(ck, c))
    for w in ('lay_add1', 'lay_addc', 'lay_add2'):
        ck.group(w, lambda: lay(ck, w))
    ck.contracts.update({
        'Iir::Biquad::setTwoPole / setPoleZeroPair / setPoleZeroForm': 'returns iff poles and zeros are real or conjugate; then a = a0 prod(1-p/z), b = a0 gain prod(1-z/z)',
        'Iir::Biquad::setOnePole': 'returns iff pole and zero are real; then a = 1 - p/z, b = 1 - z/z',
        'Iir::Custom::OnePole::setup, TwoPole::setup': 'returns; H(z) = scale prod(1-zero/z)/prod(1-pole/z)',
        'Iir::LayoutBase::add, addPoleZeroConjugatePairs': 'returns iff matched; the pair stored is the pair given'})
