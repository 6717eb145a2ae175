"""C18: RBJ designs have their documented gains at the characteristic frequencies."""
from lib import *

H = Fraction(1, 2)


def poly2(k, w):
    """k0 + k1 exp(-iw) + k2 exp(-2iw) as (re, im)"""
    z1, z2 = unit(w), unit(FC(2) * w)
    return (k[0] + k[1] * z1[0] + k[2] * z2[0], k[1] * z1[1] + k[2] * z2[1])


def designed(ck, cls, **fix):
    """run setupN for every valid parameter; yields (outcome, coefficients, parameters)"""
    ps, dflt = RBJ[cls]
    ex = Executor(ck.m)
    p = 'rbj_' + cls
    st = State()
    q = region(ex, st, p, 'filter', inp=True)
    f = fvar('f')
    v = {'f': f}
    st.assume(flt(FC(0), f))
    st.assume(flt(f, FC(H)))
    for x in ps:
        v[x] = fix.get(x, fvar(x))
        if x in ('q', 'bw'):
            st.assume(flt(FC(0), v[x]))
        if x == 'slope':
            A = tm.fn('pow', FC(10), v['gain'] / FC(40))
            # below the limit where the square root vanishes
            st.assume(flt(FC(0), v['slope']))
            st.assume(flt(FC(0), (A + FC(1) / A) * (FC(1) / v['slope'] - FC(1)) + FC(2)))
    outs = run(ex, p + '_setupN', [q, f] + [v[x] for x in ps], st)
    ck.use(ex)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            ck.holds('RBJ::%s accepts valid parameters' % cls, o.st.pc, FALSE)
            continue
        n += 1
        b = one(ex, p + '_bq', [q], o.st).val
        yield o, coefs(ex, o.st, b), v
    ck.ok('RBJ::%s returns' % cls, n > 0)


def gains(ck, cls):
    for o, c, v in designed(ck, cls):
        pc = o.st.pc
        b, a = [c['b0'], c['b1'], c['b2']], [c['a0'], c['a1'], c['a2']]
        w0 = FC(2) * PI * v['f']

        def real(s, gain, what):
            """gain at DC (s = 1) or Nyquist (s = -1); the sign is that of a non-inverting filter"""
            s = FC(s)
            ck.eq('RBJ::%s: gain at %s' % (cls, what), pc, b[0] + s * b[1] + b[2], gain * (a[0] + s * a[1] + a[2]))

        def square(w, g2, what):
            n, d = poly2(b, w), poly2(a, w)
            ck.eq('RBJ::%s: gain at %s' % (cls, what), pc, n[0] * n[0] + n[1] * n[1], g2 * (d[0] * d[0] + d[1] * d[1]))

        def zero(w, what):
            n = poly2(b, w)
            ck.eq('RBJ::%s: zero at %s (real)' % (cls, what), pc, n[0], FC(0))
            ck.eq('RBJ::%s: zero at %s (imaginary)' % (cls, what), pc, n[1], FC(0))

        if cls in ('LowPass', 'HighPass'):
            lo = cls == 'LowPass'
            real(1, FC(1 if lo else 0), 'DC')
            real(-1, FC(0 if lo else 1), 'Nyquist')
            square(w0, v['q'] * v['q'], 'the cutoff')
        elif cls in ('BandPass1', 'BandPass2'):
            real(1, FC(0), 'DC')
            real(-1, FC(0), 'Nyquist')
            square(w0, v['bw'] * v['bw'] if cls == 'BandPass1' else FC(1), 'the centre')
        elif cls == 'BandStop':
            real(1, FC(1), 'DC')
            real(-1, FC(1), 'Nyquist')
            zero(w0, 'the centre')
        elif cls == 'IIRNotch':
            zero(w0, 'the centre')
        elif cls == 'AllPass':
            square(fvar('w'), FC(1), 'every frequency')
        else:
            G = tm.fn('pow', FC(10), v['gain'] / FC(20))
            if cls == 'BandShelf':
                real(1, FC(1), 'DC')
                real(-1, FC(1), 'Nyquist')
                square(w0, G * G, 'the centre')
            else:
                lo = cls == 'LowShelf'
                real(1, G if lo else FC(1), 'DC')
                real(-1, FC(1) if lo else G, 'Nyquist')
        ck.feasible(cls, pc)
    ck.contracts['Iir::RBJ::%s::setupN' % cls] = 'valid parameters are accepted; documented gains at DC, Nyquist and the characteristic frequency'


def check(ck):
    ck.m = mod('core')
    for cls in RBJ:
        ck.group(cls, lambda: gains(ck, cls))
