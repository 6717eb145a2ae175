"""C26: frequency transforms map the analogue axis onto the requested band."""
from kernel import *


def contract(ck, t, shape):
    check_trans(ck, Trans(ck, t, shape), '%sTransform (%s)' % (t, shape))


def geometry(ck, t):
    """consequences of the relation between an analogue point and its images"""
    T = Trans(ck, t, 'all-pole', abstract=False)
    what = '%sTransform' % t
    pc = T.st.pc
    h = FC(H)

    def on(z, s, nm):
        """z is an image of s"""
        im = T.image(s)
        if T.k == 1:
            r = cadd(cmul(z, im[1]), cscale(FC(-1), im[0]))
        else:
            r = cadd(cadd(cmul(im[2], cmul(z, z)), cscale(FC(-1), cmul(im[0], z))), im[1])
        ck.eq('%s: %s (real)' % (what, nm), pc, r[0], FC(0))
        ck.eq('%s: %s (imaginary)' % (what, nm), pc, r[1], FC(0))

    def circle(w):
        return cos(w), sin(w)
    J = (FC(0), FC(1))
    K = (FC(0), FC(-1))
    Z = (FC(0), FC(0))
    if T.k == 1:
        wc = FC(2) * PI * T.f[0]
        on(circle(wc), J if t == 'LowPass' else K, 'analogue edge frequency 1 at the cutoff')
        on((FC(1 if t == 'LowPass' else -1), FC(0)), Z, 'analogue DC at %s' % ('DC' if t == 'LowPass' else 'Nyquist'))
        on((FC(-1 if t == 'LowPass' else 1), FC(0)), None, 'analogue infinity at %s' % ('Nyquist' if t == 'LowPass' else 'DC'))
    else:
        lo, hi = T.edges()
        bp = t == 'BandPass'
        on(circle(hi), J if bp else K, 'analogue edge frequency 1 at the upper edge')
        on(circle(lo), K if bp else J, 'analogue edge frequency -1 at the lower edge')
        for x, nm in ((1, 'DC'), (-1, 'Nyquist')):
            on((FC(x), FC(0)), None if bp else Z, 'analogue %s at %s' % ('infinity' if bp else 'DC', nm))
        # the centre: cos w0 = a, and its image is analogue 0 (band pass) or infinity (band stop)
        a, t_ = T.ab()
        s0 = fvar('sine0')
        im = T.image(Z if bp else None)
        c = (a, s0)
        pc2 = pc + (feq(s0 * s0, FC(1) - a * a),)
        r = cadd(cadd(cmul(im[2], cmul(c, c)), cscale(FC(-1), cmul(im[0], c))), im[1])
        ck.eq('%s: analogue %s at the centre (real)' % (what, 'DC' if bp else 'infinity'), pc2, r[0], FC(0))
        ck.eq('%s: analogue %s at the centre (imaginary)' % (what, 'DC' if bp else 'infinity'), pc2, r[1], FC(0))
        tl, th = tm.fn('tan', lo * h), tm.fn('tan', hi * h)
        ck.eq('%s: the centre is the geometric mean of the edges in tan(w/2)' % what, pc, a * (FC(1) + tl * th), FC(1) - tl * th)


def inside(ck, t):
    """an analogue point in the left half plane has its images inside the unit circle"""
    T = Trans(ck, t, 'all-pole')
    what = '%sTransform' % t
    s, z = tuple(fv('sr', 'si')), tuple(fv('zr', 'zi'))
    im = T.image(s)
    r2 = z[0] * z[0] + z[1] * z[1]
    if T.k == 1:
        x = fvar('x')
        ck.holds('%s: the tangent is positive between 0 and pi / 2' % what, (flt(FC(0), x), flt(x, FC(H))), flt(FC(0), tm.fn('tan', PI * x)))
        f = T.fn('tan', PI * T.f[0])
        num, den = im
        k = f if t == 'LowPass' else FC(1) / f
        d2, n2 = den[0] * den[0] + den[1] * den[1], num[0] * num[0] + num[1] * num[1]
        ck.eq('%s: |denominator|^2 - |numerator|^2' % what, (flt(FC(0), f),), d2 - n2, FC(-4) * k * s[0])
        D, N, k = fv('D', 'N', 'k')
        # |z|^2 D = N, D - N = -4 k sr
        q = fvar('q')
        ck.holds('%s: left half plane to the inside of the unit circle' % what,
                 (feq(q * D, N), feq(D - N, FC(-4) * k * s[0]), flt(FC(0), k), flt(s[0], FC(0)), fle(FC(0), D), fle(FC(0), N), fle(FC(0), q)), flt(q, FC(1)))
        return
    facts = band_facts(ck, T, what)
    # each image is a root: im2 z^2 - im0 z + im1 = 0
    E = cadd(cadd(cmul(im[2], cmul(z, z)), cscale(FC(-1), cmul(im[0], z))), im[1])
    w = (fvar('wr'), fvar('wi'))
    e2 = cadd(cadd(cmul(im[2], cmul(z, z)), cscale(FC(-1), cmul(cadd(z, w), cmul(im[2], z)))), cmul(cmul(z, w), im[2]))
    ck.eq('%s: a root of the polynomial with this sum and product (real)' % what, (), e2[0], FC(0))
    ck.eq('%s: a root of the polynomial with this sum and product (imaginary)' % what, (), e2[1], FC(0))
    a, Tn = T.ab()
    A, TT = fv('a', 'T')
    m = {x: y for x, y in ()}
    one_ = (FC(1), FC(0))
    u = cadd(cmul(z, z), cscale(FC(-1), one_))                                  # z^2 - 1
    v = cadd(cadd(cmul(z, z), cscale(FC(-2) * a, z)), one_)                     # z^2 - 2 a z + 1
    cv = (v[0], -v[1])
    cu = (u[0], -u[1])
    E = E if t == 'BandPass' else cscale(FC(-1), E)
    M = r2 + FC(1) - FC(2) * a * z[0]
    nz = (flt(FC(0), Tn),)
    if t == 'BandPass':
        # E conj(z^2-1) = (z^2-2az+1) conj(z^2-1) - T s |z^2-1|^2
        l = cmul(E, cu)[0]
        q = u[0] * u[0] + u[1] * u[1]
        r = (r2 - FC(1)) * M - Tn * s[0] * q
    else:
        l = cmul(E, cv)[0]
        q = v[0] * v[0] + v[1] * v[1]
        r = Tn * (r2 - FC(1)) * M - s[0] * q
    ck.eq('%s: real part of the defining relation' % what, nz, l, r)
    ck.eq('%s: r^2 + 1 - 2 a Re z as a sum' % what, facts, M, (z[0] - a) * (z[0] - a) + z[1] * z[1] + (FC(1) - a * a))
    ck.holds('%s: |a| < 1' % what, facts, flt(a * a, FC(1)))
    # facts collected over fresh symbols
    R, MM, Q, zr, zi = fv('R2', 'M', 'Q', 'zr', 'zi')
    hyp = [flt(A * A, FC(1)), flt(FC(0), TT), flt(s[0], FC(0)), feq(MM, (zr - A) * (zr - A) + zi * zi + FC(1) - A * A), fle(FC(0), Q)]
    hyp.append(feq((R - FC(1)) * MM, TT * s[0] * Q) if t == 'BandPass' else feq(TT * (R - FC(1)) * MM, s[0] * Q))
    ck.holds('%s: M is positive' % what, hyp[:1] + [hyp[3]], flt(FC(0), MM))
    hyp.append(flt(FC(0), MM))
    ck.holds('%s: left half plane to the closed unit disc' % what, hyp, fle(R, FC(1)))
    # on the circle Q = 0
    ck.holds('%s: on the circle the cofactor vanishes' % what, [hyp[1], hyp[2], hyp[4], feq(FC(0), TT * s[0] * Q if t == 'BandPass' else s[0] * Q)], fle(Q, FC(0)))
    if t == 'BandPass':
        # z^2 = 1: then E = 2 - 2 a z
        c = [feq(zr * zr - zi * zi, FC(1)), feq(FC(2) * zr * zi, FC(0))]
        ck.holds('%s: z^2 = 1 only at 1 and -1' % what, c, an(fle(zi * zi, FC(0)), fle(zr * zr, FC(1)), fle(FC(1), zr * zr)))
        ck.eq('%s: the relation at 1 and -1' % what, (feq(z[1], FC(0)), feq(z[0] * z[0], FC(1))), E[0], FC(2) - FC(2) * a * z[0])
        ck.holds('%s: 1 and -1 are not images of finite points' % what, [flt(A * A, FC(1)), feq(zr * zr, FC(1)), feq(FC(2) - FC(2) * A * zr, FC(0))], FALSE)
    else:
        # v = z^2 - 2 a z + 1 = 0: then E = T (z^2 - 1), so z^2 = 1, so 2 = 2 a z
        ck.eq('%s: the defining relation (real)' % what, (), E[0], (cadd(cscale(Tn, u), cscale(FC(-1), cmul(s, v))))[0])
        ck.eq('%s: the defining relation (imaginary)' % what, (), E[1], (cadd(cscale(Tn, u), cscale(FC(-1), cmul(s, v))))[1])
        c = [feq(zr * zr - zi * zi, FC(1)), feq(FC(2) * zr * zi, FC(0)), feq(zr * zr - zi * zi - FC(2) * A * zr + FC(1), FC(0)), flt(A * A, FC(1))]
        ck.holds('%s: z^2 - 1 and z^2 - 2 a z + 1 have no common root' % what, c, FALSE)


def check(ck):
    ck.m = mod('core', 'open')
    for key in FAM:
        ck.group('%s::setup' % key, lambda: check_setup(ck, key))
    ck.group('Cascade::setLayout', lambda: check_layout(ck, rest=False))
    for t in TRANS:
        for sh in SHAPES:
            ck.group('%sTransform (%s)' % (t, sh), lambda: contract(ck, t, sh))
        ck.group('%sTransform: edges and special points' % t, lambda: geometry(ck, t))
        ck.group('%sTransform: left half plane' % t, lambda: inside(ck, t))
    ck.contracts['XBase::setup'] = 'transforms the designed prototype with the frequencies given and makes the sections from the result'
    ck.contracts['Iir::Cascade::setLayout'] = 'section i has the poles and zeros of pair i'
    ck.contracts['LowPassTransform, HighPassTransform, BandPassTransform, BandStopTransform'] = 'for every analogue layout and all frequencies in range: every digital pole and zero is an image of the analogue one under the bilinear substitution of the filter type; pairs stay conjugate; number of poles n or 2n'
