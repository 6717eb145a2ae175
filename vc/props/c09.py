"""C09: response(f) is the transfer function of the running filter."""
from lib import *


def poly(k0, k1, k2, z1, z2):
    return (k0 + k1 * z1[0] + k2 * z2[0], k1 * z1[1] + k2 * z2[1])


def tf(c, w):
    """numerator and denominator of the running section (normalised by a0) at exp(i w)"""
    z1, z2 = unit(w), unit(FC(2) * w)
    return (poly(c['b0'] / c['a0'], c['b1'] / c['a0'], c['b2'] / c['a0'], z1, z2),
            poly(FC(1), c['a1'] / c['a0'], c['a2'] / c['a0'], z1, z2))


def section(ck, p=None):
    ex = Executor(ck.m)
    st = State()
    if p is None:
        p = 'bq'
        b, _ = biquad(ex, st)
        c = coefs(ex, st, b)
    else:
        b, st = new(ex, st, p)
        arbitrary(ex, st, b)
        c = coefs(ex, st, one(ex, p + '_bq', [b], st.clone()).val)
    st.assume(nt(feq(c['a0'], FC(0))))
    f = fvar('f')
    o8 = ex.new_flat(st, 'out', 16)
    w = FC(2) * PI * f
    n, d = tf(c, w)
    k = 0
    for o in run(ex, p + '_response', [b, f, o8], st):
        if o.kind != 'ret':
            ck.holds('response of a section does not throw', o.st.pc, FALSE)
            continue
        k += 1
        r = (ex.load(o.st, o8, ir.Ty('double')), ex.load(o.st, o8.plus(8), ir.Ty('double')))
        o.st.assume(nt(feq(d[0] * d[0] + d[1] * d[1], FC(0))))
        x = cmul(r, d)
        ck.eq('response * denominator = numerator (real)', o.st.pc, x[0], n[0])
        ck.eq('response * denominator = numerator (imaginary)', o.st.pc, x[1], n[1])
        ck.feasible('section', o.st.pc)
    ck.ok('returns', k > 0)
    ck.use(ex)


def cas(ck, N=None):
    ex = Executor(ck.m)
    st = State()
    q, arr, M, n, st = cascade(ex, st, M=IC(N) if N else None)
    if N:
        st.assume(ieq(n, IC(N)))
    f = fvar('f')
    o8 = ex.new_flat(st, 'out', 16)
    w = FC(2) * PI * f
    k = 0

    def sec(s, i):
        return tf(coefs(ex, s, arr.plus(imul(i, IC(size(ex, 'bq'))))), w)
    valid = an(fle(FC(0), f), fle(f, FC(Fraction(1, 2))))
    for o in run(ex, 'cas_response', [q, f, o8], st):
        if o.kind != 'ret':
            ck.ok('Cascade::response: std::invalid_argument', 'invalid_argument' in str(o.info), o.info)
            ck.holds('Cascade::response rejects only frequencies outside 0..0.5', o.st.pc, nt(valid))
            continue
        k += 1
        ck.holds('Cascade::response accepts only frequencies from 0 to 0.5', o.st.pc, valid)
        r = (ex.load(o.st, o8, ir.Ty('double')), ex.load(o.st, o8.plus(8), ir.Ty('double')))
        product(ck, 'Cascade::response', ex, o.st, r, n, sec)
        ck.feasible('Cascade::response', o.st.pc)
    ck.ok('Cascade::response returns', k > 0)
    ck.use(ex)


def forward(ck, key):
    """the response() of a design object is the one of its cascade"""
    ex = Executor(ck.m)
    st = State()
    q, d, st = opened(ex, st, key, arb=True)
    p = 'op_' + key
    n = one(ex, p + '_num', [q], st).val
    st.assume(ile(IC(0), n))
    st.assume(ile(n, d['M']))
    f = fvar('f')
    o8 = ex.new_flat(st, 'out', 16)
    w = FC(2) * PI * f
    k = 0

    def sec(s, i):
        return tf(coefs(ex, s, d['stages'].plus(imul(i, IC(size(ex, 'bq'))))), w)
    valid = an(fle(FC(0), f), fle(f, FC(Fraction(1, 2))))
    for o in run(ex, p + '_response', [q, f, o8], st):
        if o.kind != 'ret':
            ck.holds('%s::response rejects only frequencies outside 0..0.5' % key, o.st.pc, nt(valid))
            continue
        k += 1
        ck.holds('%s::response accepts only frequencies from 0 to 0.5' % key, o.st.pc, valid)
        r = (ex.load(o.st, o8, ir.Ty('double')), ex.load(o.st, o8.plus(8), ir.Ty('double')))
        product(ck, '%s::response' % key, ex, o.st, r, n, sec)
    ck.ok('%s::response returns' % key, k > 0)
    ck.use(ex)


MODS = ['core', 'open']


def check(ck):
    ck.m = mod('core', 'open')
    ck.group('Biquad::response', lambda: section(ck))
    for c in RBJ:
        ck.group('RBJ::%s::response' % c, lambda: section(ck, 'rbj_' + c))
    for c in ('OnePole', 'TwoPole'):
        ck.group('Custom::%s::response' % c, lambda: section(ck, 'cu_' + c))
    ck.group('Cascade::response', lambda: cas(ck), lambda: [cas(ck, N) for N in (1, 2, 3)], 'up to 3 sections', exact=False)
    for key in FAM:
        ck.group(key, lambda: forward(ck, key))
    ck.contracts['Iir::Biquad::response'] = 'for all coefficients with a0 != 0 and all f: result * D(exp(2 pi i f)) = N(exp(2 pi i f))'
    ck.contracts['Iir::Cascade::response'] = 'throws iff f < 0 or f > 0.5; otherwise the product over the sections in use, by induction over the sections'
