"""C16: Butterworth and Chebyshev designs are stable."""
from kernel import *
import props.c26 as c26
import props.c08 as c08

POS = '%s is positive'


def sines(ck, what):
    x = fvar('x')
    ck.holds('%s: the sine is positive between 0 and pi' % what, (flt(FC(0), x), flt(x, FC(1))), flt(FC(0), sin(PI * x)))
    n, i = ivar('n'), ivar('i', True)
    N = tm.i2f(n)
    ck.holds('%s: 0 < 2i + 1 < n for i < n / 2, or 2i + 1 = n' % what, (ile(IC(1), n), ilt(i, idiv(n, IC(2)))),
             an(ilt(IC(0), iadd(imul(i, IC(2)), IC(1))), ilt(iadd(imul(i, IC(2)), IC(1)), imul(n, IC(2)))))


def left(ck, ns, cls):
    """the poles of the contract of design are in the left half plane"""
    what = '%s::%s' % (ns, cls)
    n, i = ivar('n'), ivar('i', True)
    par = params(ns, cls)
    pc = (ile(IC(1), n), par_ok(ns, cls, par))
    sines(ck, what)
    # positive quantities the poles are products and quotients of, each shown from the parameters, then replaced by a symbol
    c = consts(ns, cls, n, par)
    x, y, S, K, m = fv('x', 'y', 'S', 'K', 'm')
    ok = (flt(FC(0), S), flt(FC(0), K))
    N = tm.i2f(n)
    k = tm.i2f(iadd(imul(i, IC(2)), IC(1)))
    p, _ = spec(ns, cls, n, par, i)
    q, _ = spec_odd(ns, cls, n, par)
    s = sin(k * PI / (FC(2) * N))
    ck.holds('%s: the logarithm is positive above 1' % what, (flt(FC(1), x),), flt(FC(0), log(x)))
    ck.holds('%s: sinh is positive' % what, (flt(FC(0), x),), flt(FC(0), sinh(x)))
    ck.holds('%s: quotients' % what, ok, an(flt(FC(0), S / K), flt(FC(0), S * K)))
    if ns == 'Butterworth':
        if cls == 'AnalogLowPass':
            const = FC(1)
        else:
            ck.holds('%s: powers are positive' % what, (flt(FC(0), x),), flt(FC(0), pw(x, y)))
            const = FC(1) / c['g']
    elif cls == 'AnalogLowPass':
        e = tm.fn('exp', par[0] * FC(Fraction(1, 10)) * LN10)
        ck.holds('%s: exp(ripple) > 1' % what, pc, flt(FC(1), e))
        ck.holds('%s: eps' % what, (flt(FC(1), x),), an(flt(FC(0), sqrt(x - FC(1))), flt(FC(0), sqrt(FC(1) / (x - FC(1))))))
        ck.holds('%s: 1 / eps + sqrt(1 / eps^2 + 1) > 1' % what, (flt(FC(0), x),), flt(FC(1), FC(1) / x + sqrt(FC(1) / x * (FC(1) / x) + FC(1))))
        const = c['sh']
    else:
        G, Gb, eps = c['G'], c['Gb'], c['eps']
        g, r = par
        g_, a_, u, t = fv('g', 'a', 'u', 't')
        # exponents of G and Gb
        ck.holds('%s: 10^x > 1' % what, (flt(FC(0), x),), flt(FC(1), pw(FC(10), x)))
        ck.holds('%s: 10^-x < 1' % what, (flt(x, FC(0)),), an(flt(pw(FC(10), x), FC(1)), flt(FC(0), pw(FC(10), x))))
        ck.eq('%s: 10^(x + y)' % what, (), pw(FC(10), x + y), pw(FC(10), x) * pw(FC(10), y))
        neg = flt(par[0], FC(0))
        for sg, cnd in (('cut', neg), ('boost', flt(FC(0), par[0]))):
            s2 = pc + (cnd,)
            # cut: Gb = 10^((g-r)/20) with 0 < r < g = -gain; boost: 0 > g - r > g = -gain with r = -ripple
            gg = -g
            rr = r if sg == 'cut' else -r
            ck.eq('%s: G (%s)' % (what, sg), s2, G, pw(FC(10), gg / FC(20)))
            ck.eq('%s: Gb (%s)' % (what, sg), s2, Gb, pw(FC(10), (gg - rr) / FC(20)))
            ck.holds('%s: order of the exponents (%s)' % (what, sg), s2, an(flt(FC(0), gg - rr), flt(FC(0), rr)) if sg == 'cut' else an(flt(gg - rr, FC(0)), flt(rr, FC(0))))
        # G = Gb * D with Gb and D on the same side of 1
        B, D = fv('B', 'D')
        for sg, cnd in (('cut', (flt(FC(1), B), flt(FC(1), D))), ('boost', (flt(B, FC(1)), flt(D, FC(1)), flt(FC(0), B), flt(FC(0), D)))):
            ck.holds('%s: (G^2 - Gb^2) / (Gb^2 - 1) > 0 (%s)' % (what, sg), cnd, flt(FC(0), (B * D * B * D - B * B) / (B * B - FC(1))))
            ck.holds('%s: Gb is not 1 (%s)' % (what, sg), cnd, nt(feq(B, FC(1))))
        quo = (G * G - Gb * Gb) / (Gb * Gb - FC(1))
        ck.eq('%s: definition of eps' % what, pc + (nt(feq(Gb, FC(1))), nt(feq(Gb * Gb, FC(1))), fle(FC(0), quo)), eps * eps * (Gb * Gb - FC(1)), G * G - Gb * Gb)
        ck.holds('%s: eps is positive' % what, (flt(FC(0), x),), flt(FC(0), sqrt(x)))
        GG, E, Q = fv('G', 'E', 'Q')
        # E = eps, Q = sqrt(1 + 1/eps^2)
        hyp = (flt(FC(0), B), flt(FC(0), GG), flt(FC(0), E), nt(feq(B * B, FC(1))), feq(E * E * (B * B - FC(1)), GG * GG - B * B))
        ck.eq('%s: (Gb q)^2 - (G / eps)^2 = 1' % what, hyp[2:], B * B * (FC(1) + FC(1) / (E * E)) - GG * GG / (E * E), FC(1))
        ck.holds('%s: q is positive' % what, (flt(FC(0), E),), flt(FC(0), sqrt(FC(1) + FC(1) / (E * E))))
        ck.holds('%s: G / eps + Gb q > 1' % what, (feq(x * x - y * y, FC(1)), flt(FC(0), x), flt(FC(0), y)), flt(FC(1), y + x))
        ck.holds('%s: powers of numbers above 1' % what, (flt(FC(1), x), flt(FC(0), y)), flt(FC(1), pw(x, y)))
        const = c['shu']
    if ns == 'ChebyshevII' and cls == 'AnalogLowPass':
        # p / |p|^2
        P = (-const * s, -c['ch'] * cos(k * PI / (FC(2) * N)))
        mm = P[0] * P[0] + P[1] * P[1]
        ck.eq('%s: real part of the poles' % what, pc, p[0], P[0] / mm)
        ck.eq('%s: real pole' % what, pc, q, FC(-1) / const)
        ck.holds('%s: left half plane' % what, ok + (flt(FC(0), m),), flt(-K * S / m, FC(0)))
        ck.holds('%s: not zero' % what, ok, flt(FC(0), (K * S) * (K * S) + x * x))
        ck.holds('%s: left half plane (real pole)' % what, ok, flt(FC(-1) / K, FC(0)))
        return
    ck.eq('%s: real part of the poles' % what, pc, p[0], -const * s)
    ck.eq('%s: real pole' % what, pc, q, -const)
    ck.holds('%s: left half plane' % what, ok, an(flt(-K * S, FC(0)), flt(-K, FC(0))))


def finite(ck, t):
    """images of points in the left half plane are finite"""
    sr, si, f = fv('sr', 'si', 'f')
    pc = (flt(sr, FC(0)), flt(FC(0), f))
    for nm, d in (('1 - f s', (FC(1) - f * sr, -f * si)), ('1 - s / f', (FC(1) - sr / f, -si / f)), ('s - T', (sr - f, si))):
        ck.holds('%s: %s is not zero in the left half plane' % (t, nm), pc, flt(FC(0), d[0] * d[0] + d[1] * d[1]))


def check(ck):
    ck.m = mod('core', 'open')
    for ns, c in PROTO:
        ck.group('%s::%s' % (ns, c), lambda: check_design(ck, ns, c))
        ck.group('%s::%s: left half plane' % (ns, c), lambda: left(ck, ns, c))
    for t in TRANS:
        for sh in SHAPES:
            ck.group('%sTransform (%s)' % (t, sh), lambda: check_trans(ck, Trans(ck, t, sh), '%sTransform (%s)' % (t, sh), zeros=False))
        ck.group('%sTransform: left half plane to the unit disc' % t, lambda: c26.inside(ck, t))
        ck.group('%sTransform: finite images' % t, lambda: finite(ck, t))
    ck.group('Cascade::setLayout', lambda: check_layout(ck, rest=False), lambda: [check_layout(ck, N=k, scale=False) for k in (2, 3)], 'up to 3 sections', exact=False)
    for key in FAM:
        ck.group('%s::setup' % key, lambda: check_setup(ck, key))
    ck.contracts['AnalogLowPass::design, AnalogLowShelf::design'] = 'poles of the prototype, for every order and parameter in range; all in the open left half plane'
    ck.contracts['XTransform'] = 'digital poles are images of analogue poles; images of the open left half plane are inside the unit circle'
    ck.contracts['Cascade::setLayout, setup'] = 'the poles of the running sections are those of the transformed prototype'
