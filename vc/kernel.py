"""Contracts of the analogue prototypes, the frequency transforms and Cascade::setLayout with their verification.
The property modules combine them; see DESIGN.md (Modular verification of setup)."""
from lib import *
import contracts, evalt
from contracts import I32, F64

NS = {'Butterworth': (0, 1), 'ChebyshevI': (1, 2), 'ChebyshevII': (1, 2)}
PROTO = [(ns, c) for ns in NS for c in ('AnalogLowPass', 'AnalogLowShelf')]
H = Fraction(1, 2)


def params(ns, cls):
    k = NS[ns][cls == 'AnalogLowShelf']
    return [fvar('p%d' % i) for i in range(k)]


class Proto:
    """an analogue prototype over a storage for N poles, with arbitrary contents"""

    def __init__(self, ck, ns, cls, arb=True, contracts=None):
        self.ck, self.ns, self.cls = ck, ns, cls
        self.ex = ex = Executor(ck.m, contracts=contracts or {})
        self.p = 'an_%s_%s' % (ns, cls)
        st = State()
        self.N, self.n, self.par = ivar('N', True), ivar('n'), params(ns, cls)
        st.assume(ile(self.n, self.N))
        st.assume(ile(IC(1), self.N))
        self.arr = ex.new_array(st, 'analog', ck.m.named('struct.Iir::PoleZeroPair'), idiv(iadd(self.N, IC(1)), IC(2)))
        self.q = region(ex, st, self.p, 'proto')
        st = one(ex, self.p + '_new', [self.q, self.N, self.arr], st).st
        self.lay = one(ex, self.p + '_lay', [self.q], st.clone()).val
        self.w0, self.g0 = self.normal(st)
        s0 = st.clone()
        if arb:
            arbitrary(ex, st, self.q)
            m = self.num(st)
            st.assume(ile(IC(0), m))
            st.assume(ile(m, self.N))
            self.fresh0 = s0
            st = self.houdini(st)
        self.st = st

    def houdini(self, st):
        """invariant: the reference frequency and gain are those of the constructor, as far as every call preserves that"""
        ex = self.ex
        v = contracts.View(ex)
        keep = [(v.w, self.w0), (v.g, self.g0)]
        self.invariant = []
        cand = keep
        while cand:
            s = st.clone()
            for off, x in cand:
                ex.store(s, self.lay.plus(off), F64, x)
            save, ex.collect = ex.collect, False
            outs = run(ex, self.p + '_design', [self.q, self.n] + self.par, s.clone())
            ex.collect = save
            good = [(off, x) for off, x in cand if all(self.kept(o, off, x) for o in outs)]
            if good == cand:
                self.invariant = cand
                return s
            cand = good
        return st

    def kept(self, o, off, x):
        v = self.ex.load(o.st.clone(), self.lay.plus(off), F64)
        if tm.mode() == 'R' and evalt.refute_eq(o.st.pc, v, x, self.ck.rnd, n=3):
            return False
        return alg_eq(o.st.pc, v, x)

    def normal(self, st):
        return one(self.ex, 'lay_w', [self.lay], st.clone()).val, one(self.ex, 'lay_g', [self.lay], st.clone()).val

    def num(self, st):
        return one(self.ex, 'lay_num', [self.lay], st.clone()).val

    def design(self, n=None, par=None, st=None):
        o = run(self.ex, self.p + '_design', [self.q, self.n if n is None else n] + (self.par if par is None else par), (st or self.st).clone())
        self.ck.use(self.ex)
        return o

    def pair(self, st, i):
        """values of pair i as (p1, p2, z1, z2) with the state in which they were read"""
        for o in run(self.ex, 'lay_at', [self.lay, i], st.clone()):
            if o.kind == 'ret':
                yield pair_vals(self.ex, o.st, o.val), o.st

    def unchanged(self, st0, st):
        a, b = st0.mem[self.q.reg].cells, st.mem[self.q.reg].cells
        if st0.mem[self.arr.reg].leaf != st.mem[self.arr.reg].leaf:
            return False
        for o, (v, z) in b.items():
            w = a.get(o)
            w = w[0] if w else self.ex.flat_load(st0.clone(), self.q.reg, o, ir.PTR if isinstance(v, Ptr) else F64 if v.sort == 'f' else I32 if z == 4 else ir.Ty('i', 8 * z))
            if not (w is v or w == v):
                return False
        return True


def log(x):
    return tm.fn('log', x)


def sinh(x):
    return tm.fn('sinh', x)


def cosh(x):
    return tm.fn('cosh', x)


def pw(a, b):
    return tm.fn('pow', a, b)


def shelf(par):
    """Orfanidis' parameters of the Chebyshev shelves: G, Gb, eps"""
    g = -par[0]
    r = par[1]
    a = ite(flt(g, FC(0)), -g, g)
    r = ite(fle(a, r), a, r)
    r = ite(flt(g, FC(0)), -r, r)
    G, Gb = pw(FC(10), g / FC(20)), pw(FC(10), (g - r) / FC(20))
    eps = ite(feq(Gb, FC(1)), G - FC(1), sqrt((G * G - Gb * Gb) / (Gb * Gb - FC(1))))
    return G, Gb, eps


def consts(ns, cls, n, par):
    """quantities which do not depend on the pair"""
    N = tm.i2f(n)
    if (ns, cls) == ('Butterworth', 'AnalogLowShelf'):
        return dict(g=pw(pw(FC(10), par[0] / FC(20)), FC(1) / (FC(2) * N)))
    if cls == 'AnalogLowPass' and ns != 'Butterworth':
        e = tm.fn('exp', par[0] * FC(Fraction(1, 10)) * LN10)
        eps = sqrt(e - FC(1)) if ns == 'ChebyshevI' else sqrt(FC(1) / (e - FC(1)))
        v0 = log(FC(1) / eps + sqrt(FC(1) / eps * (FC(1) / eps) + FC(1))) / N
        return dict(eps=eps, sh=sinh(v0), ch=cosh(v0))
    if cls == 'AnalogLowShelf':
        G, Gb, eps = shelf(par)
        q = sqrt(FC(1) + FC(1) / (eps * eps))
        u = log(pw(G / eps + Gb * q, FC(1) / N))
        v = log(pw(FC(1) / eps + q, FC(1) / N))
        return dict(G=G, Gb=Gb, eps=eps, shu=sinh(u), chu=cosh(u), shv=sinh(v), chv=cosh(v))
    return {}


def spec(ns, cls, n, par, i, c=None):
    """pole and zero of pair i < n / 2 of the prototype: pole p, zero z (None: at infinity), the others are their conjugates"""
    c = c or consts(ns, cls, n, par)
    N, k = tm.i2f(n), tm.i2f(iadd(imul(i, IC(2)), IC(1)))
    t = k * PI / (FC(2) * N)                      # (2i + 1) pi / 2n
    s, o = sin(t), cos(t)
    if ns == 'Butterworth':
        if cls == 'AnalogLowPass':
            return (-s, o), None                  # exp(j (pi/2 + t))
        return (-s / c['g'], -o / c['g']), (-c['g'] * s, -c['g'] * o)
    if cls == 'AnalogLowShelf':
        return (-s * c['shu'], o * c['chu']), (-s * c['shv'], o * c['chv'])
    p = (-c['sh'] * s, -c['ch'] * o)
    if ns == 'ChebyshevI':
        return p, None
    m = p[0] * p[0] + p[1] * p[1]
    return (p[0] / m, p[1] / m), (FC(0), FC(1) / o)


def spec_odd(ns, cls, n, par, c=None):
    """the real pole and zero of an odd order"""
    c = c or consts(ns, cls, n, par)
    if ns == 'Butterworth':
        return (FC(-1), None) if cls == 'AnalogLowPass' else (-FC(1) / c['g'], -c['g'])
    if cls == 'AnalogLowShelf':
        return -c['shu'], -c['shv']
    return (-c['sh'] if ns == 'ChebyshevI' else FC(-1) / c['sh']), None


def spec_normal(ns, cls, par, odd):
    if cls == 'AnalogLowShelf':
        return PI, FC(1)
    if ns == 'ChebyshevI' and not odd:
        return FC(0), pw(FC(10), -par[0] / FC(20))
    return FC(0), FC(1)


def par_ok(ns, cls, par):
    """documented parameter range"""
    if ns == 'Butterworth':
        return TRUE
    if cls == 'AnalogLowPass':
        return flt(FC(0), par[0])
    g = ite(flt(par[0], FC(0)), -par[0], par[0])
    return an(flt(FC(0), par[1]), flt(par[1], g))


def isinf(v):
    return v[0] is INF


def eqz(ck, what, pc, z, want):
    if want is None:
        ck.ok('%s: zero at infinity' % what, z[0] is INF and (z[1] is FC(0) or alg_eq(pc, z[1], FC(0))), z)
    elif z[0] is INF:
        ck.ok('%s: zero at infinity' % what, False, z)
    else:
        ck.eq('%s: zero (real)' % what, pc, z[0], want[0])
        ck.eq('%s: zero (imaginary)' % what, pc, z[1], want[1])


def check_content(ck, P, o, what, n=None, par=None):
    """the layout in state o.st is the one of order n with parameters par"""
    ns, cls, ex = P.ns, P.cls, P.ex
    n = P.n if n is None else n
    par = P.par if par is None else par
    ck.eq('%s: number of poles' % what, o.st.pc, P.num(o.st), n)
    for odd in (False, True):
        s = o.st.clone()
        s.assume(ieq(irem2(n), IC(int(odd))))
        if not smt.feasible(s.pc):
            continue
        w, g = P.normal(s)
        W, G = spec_normal(ns, cls, par, odd)
        ck.eq('%s: normalisation frequency' % what, s.pc, w, W)
        ck.eq('%s: normalisation gain' % what, s.pc, g, G)
        if odd:
            k = 0
            for (p1, p2, z1, z2), s2 in P.pair(s, idiv(n, IC(2))):
                k += 1
                p, z = spec_odd(ns, cls, n, par)
                ck.eq('%s: real pole' % what, s2.pc, p1[0], p)
                ck.eq('%s: real pole (imaginary)' % what, s2.pc, p1[1], FC(0))
                ck.eq('%s: single pole' % what, s2.pc, p2[0] * p2[0] + p2[1] * p2[1], FC(0))
                eqz(ck, '%s: real' % what, s2.pc, z1, None if z is None else (z, FC(0)))
                ck.ok('%s: single zero' % what, z2[0] is not INF and alg_eq(s2.pc, z2[0] * z2[0] + z2[1] * z2[1], FC(0)), z2)
            ck.ok('%s: the last pair exists' % what, k > 0)
    i = ivar('i', True)
    for i in (IC(0), iadd(ivar('i', True), IC(1))):
        s = o.st.clone()
        s.assume(ilt(i, idiv(n, IC(2))))
        if not smt.feasible(s.pc):
            continue
        k = 0
        for (p1, p2, z1, z2), s2 in P.pair(s, i):
            k += 1
            p, z = spec(ns, cls, n, par, i)
            for a, b, l in ((p1, p, 'pole'),):
                ck.eq('%s: %s (real)' % (what, l), s2.pc, a[0], b[0])
                ck.eq('%s: %s (imaginary)' % (what, l), s2.pc, a[1], b[1])
            ck.eq('%s: second pole is the conjugate (real)' % what, s2.pc, p2[0], p1[0])
            ck.eq('%s: second pole is the conjugate (imaginary)' % what, s2.pc, p2[1], -p1[1])
            eqz(ck, what, s2.pc, z1, z)
            ck.ok('%s: second zero is the conjugate' % what, (z2[0] is INF and z1[0] is INF) or
                  (not isinf(z1) and not isinf(z2) and alg_eq(s2.pc, z2[0], z1[0]) and alg_eq(s2.pc, z2[1], -z1[1])), (z1, z2))
        ck.ok('%s: pairs exist' % what, k > 0)


def check_design(ck, ns, cls, ok=True):
    """contract: a design which returns leaves the prototype with the poles and zeros of its arguments. A call which changes
    nothing (because the same prototype was designed last) is the subject of check_history."""
    what = '%s::%s' % (ns, cls)
    P = Proto(ck, ns, cls)
    if ok:
        P.st.assume(par_ok(ns, cls, P.par))
        P.st.assume(ile(IC(1), P.n))
    n = 0
    for o in P.design():
        if o.kind != 'ret':
            if ok:
                ck.holds('%s: accepts every order and parameter in its range' % what, o.st.pc, FALSE)
            continue
        if P.unchanged(P.st, o.st):
            continue
        n += 1
        check_content(ck, P, o, what)
        ck.feasible(what, o.st.pc)
    ck.ok('%s: designs' % what, n > 0)
    return P


def check_history(ck, ns, cls):
    """invariant of the prototypes: whenever design would skip the computation, the contents are those of its arguments. It holds
    after construction and is preserved by every call, whether it returns or throws."""
    what = '%s::%s' % (ns, cls)
    P = Proto(ck, ns, cls)
    ex = P.ex
    f = P.fresh0.clone()
    f.assume(ile(IC(1), P.n))
    for o in run(ex, P.p + '_design', [P.q, P.n] + P.par, f):
        ck.ok('%s: a new prototype is always computed' % what, o.kind != 'ret' or not P.unchanged(P.fresh0, o.st))
    m = ivar('m')
    b = [fvar('q%d' % i) for i in range(len(P.par))]
    k = 0
    for o in P.design():
        if P.unchanged(P.st, o.st):
            continue
        k += 1
        s = o.st.clone()
        s.assume(ile(m, P.N))
        s.assume(ile(IC(1), m))
        for o2 in P.design(m, b, s):
            if o2.kind != 'ret' or not P.unchanged(s, o2.st):
                continue
            if o.kind != 'ret':
                ck.holds('%s: after a failed design nothing is skipped' % what, o2.st.pc, FALSE)
                continue
            ck.eq('%s: a skipped design has the same order' % what, o2.st.pc, m, P.n)
            # Leibniz: equal arguments have equal results
            for x, y, i in zip(b, P.par, range(9)):
                ck.eq('%s: a skipped design has the same parameter %d' % (what, i), o2.st.pc, x, y)
            ck.feasible('%s: the same design again' % what, o2.st.pc)
    ck.ok('%s: designs' % what, k > 0)


def irem2(n):
    return iand(n, IC(1))


# ---------------------------------------------------------------- frequency transforms
TRANS = {'LowPass': 1, 'HighPass': 1, 'BandPass': 2, 'BandStop': 2}
SHAPES = {'all-pole': (None, None), 'zeros': ('z', None), 'shelf': ('z', 'z')}     # (zeros of the pairs, zero of the real pole)


def analog(ex, st, shape, name='A'):
    """an analogue layout as the prototypes make them: pairs i < n / 2 of conjugates, finite poles, finite zeros or zeros at
    infinity, followed by one real pole if n is odd. Values are arbitrary."""
    cap = ivar(name + '.cap', True)
    arr = ex.new_array(st, name + '.pairs', ex.mod.named('struct.Iir::PoleZeroPair'), idiv(iadd(cap, IC(1)), IC(2)))
    q = region(ex, st, 'lay', name)
    st = one(ex, 'lay_new', [q, cap, arr], st).st
    v = contracts.View(ex)
    n = ivar('n')
    st.assume(ile(IC(1), n))
    st.assume(ile(n, cap))
    ex.flat_store(st, q.reg, v.num, I32, n)
    W, G = fvar('fin:W'), fvar('fin:G')
    ex.flat_store(st, q.reg, v.w, F64, W)
    ex.flat_store(st, q.reg, v.g, F64, G)
    k = ivar(name + '.k', True)
    ka = k.args[1][0][0]
    S = lambda s: sel('fin:%s.%s' % (name, s), k)
    pr, pi = S('pr'), S('pi')
    a, b = SHAPES[shape]
    zr, zi = (INF, FC(0)) if a is None else (S('zr'), S('zi'))
    vals = [pr, pi, pr, fneg(pi), zr, zi, zr, fneg(zi)]
    h = idiv(n, IC(2))
    for o, x in zip(range(0, 64, 8), vals):
        m = st.wr(arr.reg)
        m.leaf[o] = ('range', ('base', 'fin:%s.rest.%d' % (name, o)), ka, h, IC(0), 1, x)
    odd = [fvar('fin:%s.q' % name), FC(0), FC(0), FC(0), INF if b is None else fvar('fin:%s.y' % name), FC(0), FC(0), FC(0)]
    m = st.wr(arr.reg)
    for o, x in zip(range(0, 64, 8), odd):
        m.leaf[o] = ('store', m.leaf[o], h, x)

    def elem(i):
        z = None if a is None else (subst(zr, {ka: i}), subst(zi, {ka: i}))
        return (subst(pr, {ka: i}), subst(pi, {ka: i})), z
    real = ((odd[0], FC(0)), None if b is None else (odd[4], FC(0)))
    return q, dict(n=n, cap=cap, W=W, G=G, elem=elem, real=real, arr=arr), st


class Trans:
    """one frequency transform applied to an arbitrary analogue layout of the given shape, into an arbitrary digital layout"""

    def __init__(self, ck, t, shape, valid=True, inband=True, abstract=True):
        self.ck, self.t, self.shape, self.k = ck, t, shape, TRANS[t]
        self.ex = ex = Executor(ck.m)
        st = State()
        self.A, self.a, st = analog(ex, st, shape)
        self.n = n = self.a['n']
        self.D, da, dcap, dn, st = layout(ex, st, 'D')
        st.assume(ile(imul(n, IC(self.k)), dcap))
        self.f = fv('fc', 'fw')[:self.k]
        fc = self.f[0]
        if valid:
            st.assume(flt(FC(0), fc))
            st.assume(flt(fc, FC(H)))
            if self.k == 2:
                fw = self.f[1]
                st.assume(flt(FC(0), fw))
                if inband:
                    # band edges inside the range of the library's clamps
                    lo, hi = self.edges(raw=True)
                    e = FC(Fraction(1, 10**8))
                    st.assume(fle(e, lo))
                    st.assume(fle(hi, PI - e))
        self.st = st
        self.done = set()
        ex.collect = False
        ex.algdecide = True
        ex.abstract = self.ab_ = Abstract() if abstract else None
        if abstract and valid and (self.k == 1 or inband):
            w = [PI * fc] if self.k == 1 else [(hi - lo) * FC(H) for lo, hi in [self.edges()]]
            self.ab_.right = w
        self.outs = run(ex, 'tr_' + t, self.f + [self.D, self.A], st)
        ck.use(ex)

    def edges(self, raw=False):
        """lower and upper band edge in radians"""
        fc, fw = self.f
        w = FC(2) * PI * fc
        d = PI * fw
        return w - d, w + d

    def ab(self):
        lo, hi = self.edges()
        f = self.fn
        return f('cos', (hi + lo) * FC(H)) / f('cos', (hi - lo) * FC(H)), f('tan', (hi - lo) * FC(H))

    def fn(self, name, x):
        if self.ab_:
            return self.ab_.find(self.st.pc, name, x)
        return cos(x) if name == 'cos' else sin(x) if name == 'sin' else tm.fn(name, x)

    def num(self, st):
        return one(self.ex, 'lay_num', [self.D], st.clone()).val

    def normal(self, st):
        return one(self.ex, 'lay_w', [self.D], st.clone()).val, one(self.ex, 'lay_g', [self.D], st.clone()).val

    def pair(self, st, i):
        for o in run(self.ex, 'lay_at', [self.D, i], st.clone()):
            if o.kind == 'ret':
                v = pair_vals(self.ex, o.st, o.val)
                flat = [x for z in v for x in z]
                if not any(x is not INF and tm.atoms_of(x, lambda t: t.op == 'ite') for x in flat):
                    yield v, o.st
                    continue
                # one state per way the conditional values can be resolved
                for p, f in alg.split_ites(tuple(o.st.pc), [FC(0) if x is INF else x for x in flat]):
                    s = o.st.clone()
                    for c in p:
                        if c not in s.pc:
                            s.assume(c)
                    f = [x if x is INF else y for x, y in zip(flat, f)]
                    yield tuple((f[2 * j], f[2 * j + 1]) for j in range(4)), s

    # the relations between an analogue point s and its digital images
    def image(self, s):
        """(numerators, denominators) of the linear (low/high pass: z = num / den) or of the quadratic (sum and product of the
        two images as complex fractions over one denominator) the images of s satisfy; s None is infinity"""
        one_, zero = (FC(1), FC(0)), (FC(0), FC(0))
        if self.k == 1:
            t = self.fn('tan', PI * self.f[0])
            sg = 1
            if self.t == 'HighPass':
                t, sg = FC(1) / t, -1
            if s is None:
                return (FC(-sg), FC(0)), one_
            f = cscale(t, s)
            return cscale(FC(sg), cadd(one_, f)), cadd(one_, cscale(FC(-1), f))
        # s = (z^2 - 2 a z + 1) / (T (z^2 - 1)) with T = tan((hi - lo) / 2) (band pass) or its inverse (band stop):
        # (1 - T s) z^2 - 2 a z + (1 + T s) = 0;  band stop: (T - s) z^2 + 2 a s z - (T + s) = 0 after s -> 1 / s
        a, T = self.ab()
        if self.t == 'BandPass':
            if s is None:
                return zero, (FC(-1), FC(0)), one_
            Ts = cscale(T, s)
            d = cadd(one_, cscale(FC(-1), Ts))
            return (FC(2) * a, FC(0)), cadd(one_, Ts), d
        if s is None:
            return (FC(2) * a, FC(0)), one_, one_
        d = (s[0] - T, s[1])
        return cscale(FC(2) * a, s), (s[0] + T, s[1]), d


def c_eq(ck, what, pc, x, y):
    ck.eq(what + ' (real)', pc, x[0], y[0])
    ck.eq(what + ' (imaginary)', pc, x[1], y[1])


def check_image(ck, T, what, st, s, ds):
    """ds (one or two digital points) are the images of s"""
    im = T.image(s)
    nz = (nt(feq(im[-1][0] * im[-1][0] + im[-1][1] * im[-1][1], FC(0))),) if s is not None else ()
    if T.k == 1:
        r = [('image', cmul(ds[0], im[1]), im[0])]
    else:
        r = [('sum of the two images', cmul(cadd(*ds), im[2]), im[0]), ('product of the two images', cmul(cmul(*ds), im[2]), im[1])]
    for l, x, y in r:
        for j, part in enumerate(('real', 'imaginary')):
            nm = '%s: %s (%s)' % (what, l, part)
            if (x[j], y[j]) in T.done:      # shown before, without using a path condition
                ck.add(nm, 'proved', 'algebraic normaliser')
            elif not tm.atoms_of(x[j], lambda t: t.op == 'ite') and alg_eq(nz, x[j], y[j]):
                T.done.add((x[j], y[j]))
                ck.add(nm, 'proved', 'algebraic normaliser')
            else:
                ck.eq(nm, st.pc + nz, x[j], y[j])


def band_facts(ck, T, what):
    """|a| < 1 and 0 < T for bands inside (0, pi), as facts about the generalised symbols"""
    lo, hi = T.edges()
    h = FC(H)
    cp, cm, t = T.fn('cos', (hi + lo) * h), T.fn('cos', (hi - lo) * h), T.fn('tan', (hi - lo) * h)
    pc = T.st.pc
    CP, CM = cos((hi + lo) * h), cos((hi - lo) * h)
    ck.eq('%s: cos^2 - cos^2 of the half difference and half sum of the edges is the product of their sines' % what, pc, CM * CM - CP * CP, sin(lo) * sin(hi))
    ck.holds('%s: lower edge between 0 and pi' % what, pc, an(flt(FC(0), lo), flt(lo, PI)))
    ck.holds('%s: upper edge between 0 and pi' % what, pc, an(flt(FC(0), hi), flt(hi, PI)))
    x = fvar('x')
    u = PI * x
    ck.holds('%s: the sine is positive between 0 and pi' % what, (flt(FC(0), x), flt(x, FC(1))), flt(FC(0), sin(u)))
    ck.holds('%s: half difference of the edges between 0 and pi / 2' % what, pc, an(flt(FC(0), (hi - lo) * h), flt((hi - lo) * h, PI * h)))
    ck.holds('%s: the tangent is positive between 0 and pi / 2' % what, (flt(FC(0), x), flt(x, h)), flt(FC(0), tm.fn('tan', u)))
    ck.holds('%s: the cosine is positive between 0 and pi / 2' % what, (flt(FC(0), x), flt(x, h)), flt(FC(0), cos(u)))
    return [flt(cp * cp, cm * cm), flt(FC(0), cm), flt(FC(0), t)]


def distinct(ck, T, what, st, s, f):
    """a path on which the two images of s, off the real axis, coincide, is impossible. f: first image.
    True if st is such a path."""
    g = []
    for x in f:
        o = [c.args[1 - c.args.index(x)] for c in st.pc if c.op == 'feq' and x in c.args]
        if not o:
            return False
        g.append(o[0])
    check_image(ck, T, '%s (both images)' % what, st, s, [f, tuple(g)])
    F, G, D = [tuple(fv('%sr' % x, '%si' % x)) for x in 'FGD']
    S, P = cmul(cadd(F, G), D), cmul(cmul(F, G), D)
    E = cadd(F, cscale(FC(-1), G))
    l, r = cadd(cmul(S, S), cscale(FC(-4), cmul(P, D))), cmul(cmul(D, D), cmul(E, E))
    ck.eq('%s: discriminant of the images (real)' % what, (), l[0], r[0])
    ck.eq('%s: discriminant of the images (imaginary)' % what, (), l[1], r[1])
    s = tuple(fv('sr', 'si'))
    im = T.image(s)
    d = cadd(cmul(im[0], im[0]), cscale(FC(-4), cmul(im[1], im[2])))
    ck.holds('%s: the images of a point off the real axis are distinct' % what, T.facts + [nt(feq(s[1], FC(0))), feq(d[0], FC(0)), feq(d[1], FC(0))], FALSE)
    return True


def check_trans(ck, T, what, zeros=True):
    """contract of a transform (of what it does with the poles, if not zeros)"""
    k = 0
    T.facts = band_facts(ck, T, what) if T.k == 2 else []
    n, ex = T.n, T.ex
    for o in T.outs:
        if o.kind != 'ret':
            ck.holds('%s: valid frequencies are accepted' % what, o.st.pc, FALSE)
            continue
        k += 1
        ck.eq('%s: number of poles' % what, o.st.pc, T.num(o.st), imul(n, IC(T.k)))
        w, g = T.normal(o.st)
        ck.eq('%s: reference gain' % what, o.st.pc, g, T.a['G'])
        for i in (IC(0), iadd(ivar('i', True), IC(1))):
            s0 = o.st.clone()
            s0.assume(ilt(i, idiv(n, IC(2))))
            if not smt.feasible(s0.pc):
                continue
            p, z = T.a['elem'](i)
            for s in cases(s0, *([i, isub(i, IC(1))] if i is not IC(0) else [i])):
                if T.k == 1:
                    for (p1, p2, z1, z2), s2 in T.pair(s, i):
                        check_image(ck, T, '%s: pole' % what, s2, p, [p1])
                        conj(ck, '%s: poles' % what, s2, p1, p2)
                        if zeros:
                            check_image(ck, T, '%s: zero' % what, s2, z, [z1])
                            conj(ck, '%s: zeros' % what, s2, z1, z2)
                else:
                    for (p1, p2, z1, z2), s2 in T.pair(s, imul(i, IC(2))):
                        for (q1, q2, y1, y2), s3 in T.pair(s2, iadd(imul(i, IC(2)), IC(1))):
                            check_image(ck, T, '%s: pole' % what, s3, p, [p1, q1])
                            conj(ck, '%s: poles' % what, s3, p1, p2)
                            conj(ck, '%s: poles' % what, s3, q1, q2)
                            if not zeros:
                                continue
                            if z is not None and distinct(ck, T, '%s: zero' % what, s3, z, z1):
                                continue
                            check_image(ck, T, '%s: zero' % what, s3, z, [z1, y1])
                            for a, b in ((z1, z2), (y1, y2)):
                                conj(ck, '%s: zeros' % what, s3, a, b)
        s0 = o.st.clone()
        s0.assume(ieq(irem2(n), IC(1)))
        if smt.feasible(s0.pc):
            p, z = T.a['real']
            j = idiv(n, IC(2)) if T.k == 1 else isub(n, IC(1))
            for s in cases(s0, isub(idiv(n, IC(2)), IC(1))):
                for (p1, p2, z1, z2), s2 in T.pair(s, j):
                    if T.k == 1:
                        check_image(ck, T, '%s: real pole' % what, s2, p, [p1])
                        if zeros:
                            check_image(ck, T, '%s: real zero' % what, s2, z, [z1])
                        for x in p2 + (z2 if zeros else ()):
                            ck.eq('%s: single' % what, s2.pc, x, FC(0))
                    else:
                        check_image(ck, T, '%s: real pole' % what, s2, p, [p1, p2])
                        if zeros:
                            check_image(ck, T, '%s: real zero' % what, s2, z, [z1, z2])
    ck.ok('%s: returns' % what, k > 0)


def conj(ck, what, st, a, b):
    ck.eq('%s: conjugates (real)' % what, st.pc, b[0], a[0])
    ck.eq('%s: conjugates (imaginary)' % what, st.pc, b[1], -a[1])


# ---------------------------------------------------------------- Cascade::setLayout
class Response:
    """stands for Cascade::response during setLayout: an arbitrary complex value, or the exception for a frequency outside its
    range; what it is for the sections at that moment is the contract verified by response_contract"""
    name = 'Iir::Cascade::response(double) const'

    def __init__(self):
        self.calls = []

    def __call__(self, ex, st, av):
        i = len(self.calls)
        r = tuple(fvar('fin:R%d%s' % (i, x)) for x in 'ri')
        self.calls.append((av[0], av[1], r, st.clone()))
        st.event('response', i)
        f = av[1]
        bad = st.clone()
        st.assume(fle(FC(0), f))
        st.assume(fle(f, FC(H)))
        bad.assume(orr(flt(f, FC(0)), flt(FC(H), f)))
        return [sym.Outcome('ret', st, r), sym.Outcome('throw', bad, None, 'response')]


def stage_at(ex, q, i, st, fnm='cas_at'):
    o = [x for x in run(ex, fnm, [q, i], st.clone()) if x.kind == 'ret']
    if len(o) != 1:
        raise Unsupported('section access')
    return o[0]


def check_layout(ck, what='Cascade::setLayout', N=None, scale=True, rest=True):
    """contract: section i < (n + 1) / 2 has the poles and zeros of pair i and leading numerator coefficient 1, except that the
    numerator of section 0 is multiplied by normalGain / |response(normalW / 2 pi)|, where response is taken of the sections
    without that factor; all other reserved sections are the identity"""
    import props.c08 as c08
    ex = Executor(ck.m)
    st = State()
    q, arr, M, n0, st = cascade(ex, st, M=IC(N) if N else None)
    l, pr, cap, np, st = layout(ex, st, cap=IC(2 * N) if N else None)
    if N:
        st.assume(ile(IC(2 * N - 1), np))
    W, G = one(ex, 'lay_w', [l], st.clone()).val, one(ex, 'lay_g', [l], st.clone()).val
    rs = Response()
    if not N:
        ex.contracts = {rs.name: rs}
    cnt = idiv(iadd(np, IC(1)), IC(2))
    found = 0
    ex.collect = False
    for o in run(ex, 'cas_layout', [q, l], st):
        if o.kind != 'ret':
            continue
        found += 1
        num = one(ex, 'cas_num', [q], o.st.clone()).val
        ck.eq('%s: one section per two poles' % what, o.st.pc, num, cnt)
        if scale:
            ev = [rs.calls[e[1]] for e in o.st.events if e[0] == 'response']
            some = smt.feasible(o.st.pc + (ile(IC(1), np),))
            if not some:
                continue
            if len(ev) != 1:
                raise Unsupported('%s: the scale is not computed from one response()' % what)
            p, f, R, at_ = ev[0]
            ck.ok('%s: response of its own sections' % what, p == q, p)
            ck.eq('%s: response at the reference frequency' % what, o.st.pc, f * FC(2) * PI, W)
            ck.eq('%s: response of all sections' % what, o.st.pc, one(ex, 'cas_num', [q], at_.clone()).val, num)
            nz = nt(feq(R[0] * R[0] + R[1] * R[1], FC(0)))
            k = G / sqrt(R[0] * R[0] + R[1] * R[1])
            # the product over the sections is scaled by k as section 0 is; its magnitude becomes normalGain
            ck.eq('%s: squared magnitude after scaling is normalGain squared' % what, (nz,), k * R[0] * (k * R[0]) + k * R[1] * (k * R[1]), G * G)
        for i, s in entries(o.st, cnt, N):
            if not smt.feasible(s.pc + (ilt(i, cnt),)):
                continue
            s.assume(ilt(i, cnt))
            nm = 'section %s' % ('0' if i is IC(0) else 'i > 0')
            a = stage_at(ex, q, i, s)
            c = coefs(ex, a.st, a.val)
            if scale:
                at1 = at_.clone()
                at1.pc = s.pc
                b = stage_at(ex, q, i, at1)
                d = coefs(ex, b.st, b.val)
                pc = b.st.pc + a.st.pc + (nz,)
                kk = k if i is IC(0) else FC(1)
                for x in COEF:
                    ck.eq('%s: %s: %s is the one before scaling%s' % (what, nm, x, ', scaled' if i is IC(0) and x[0] == 'b' else ''), pc,
                          c[x] * d['a0'], (kk if x[0] == 'b' else FC(1)) * d[x] * c['a0'])
                pa = stage_at(ex, l, i, b.st, 'lay_at')
                ck.eq('%s: %s: leading numerator coefficient before scaling' % (what, nm), pa.st.pc, d['b0'], d['a0'])
                ck.holds('%s: %s: a0 is not zero' % (what, nm), pa.st.pc, nt(feq(d['a0'], FC(0))))
                c08.roots(ck, '%s: %s before scaling' % (what, nm), pa.st.pc, d, pair_vals(ex, pa.st, pa.val))
        if rest:
            i = iadd(cnt, ivar('r', True))
            s = o.st.clone()
            s.assume(ilt(i, M))
            if smt.feasible(s.pc):
                a = stage(ex, arr, i)
                c = raw(ex, s, a)
                for x in COEF:
                    ck.eq('%s: sections above: %s of the identity' % (what, x), s.pc, c[x], FC(1 if x in ('a0', 'b0') else 0))
    ck.ok('%s: returns' % what, found > 0)
    ck.use(ex)


# ---------------------------------------------------------------- setup as a composition
def check_setup(ck, key, what=None, arb=True):
    """contract of the order-taking setup: on return, the prototype was designed with the given order and parameters, its
    layout transformed by the family's transform with the given frequencies, and the result, with the reference of the
    transform (band shelves: their own), passed to setLayout; nothing was changed afterwards"""
    S = contracts.Setup(ck, key, arb)
    ex, v = S.ex, S.s.v
    what = what or key
    n = 0
    for o in S.outs:
        if o.kind != 'ret':
            continue
        n += 1
        c = S.calls(o)
        pat = [x[0] for x in c]
        if pat != ['design', 'transform', 'layout']:
            raise Unsupported('%s: setup is not design, transform, setLayout but %s' % (what, ', '.join(pat)))
        (_, q, od, par, _), (_, t, fr, dig, an_, ts), (_, cq, l, ls) = c
        ck.eq('%s: order of the prototype' % what, o.st.pc, od, S.n)
        for x, y, nm in zip(par, S.e, S.exr):
            ck.eq('%s: %s of the prototype' % (what, nm), o.st.pc, x, y)
        ck.ok('%s: number of parameters' % what, len(par) == len(S.e))
        ck.ok('%s: transform' % what, t == contracts.TR[S.c], t)
        for x, y, nm in zip(fr, S.f, S.fr):
            ck.eq('%s: %s of the transform' % (what, nm), o.st.pc, x, y)
        ck.ok('%s: the designed prototype is transformed' % what, an_ == q, (an_, q))
        ck.ok('%s: the transformed layout is realised' % what, l == dig, (l, dig))
        # between the calls
        for nm, a, b, p in (('prototype', 'D', ts, an_), ('digital layout', 'T', ls, dig)):
            i = {'D': 1, 'T': 2}[a]
            ap = ex.load(b, p.plus(v.pair), ir.PTR)
            ck.ok('%s: poles and zeros of the %s are used as they are' % (what, nm), untouched(b, ap, '%s%d' % (a, i)))
        ck.eq('%s: number of poles of the prototype' % what, ts.pc, ex.load(ts, an_.plus(v.num), I32), S.n)
        ck.eq('%s: number of digital poles' % what, ls.pc, ex.load(ls, dig.plus(v.num), I32), imul(S.n, IC(TRANS[t])))
        ck.eq('%s: reference frequency of the prototype' % what, ts.pc, ex.load(ts, an_.plus(v.w), F64), fvar('dW1'))
        ck.eq('%s: reference gain of the prototype' % what, ts.pc, ex.load(ts, an_.plus(v.g), F64), fvar('dG1'))
        w, g = ex.load(ls, dig.plus(v.w), F64), ex.load(ls, dig.plus(v.g), F64)
        if S.c == 'BandShelf':
            fc = S.f[0]
            ck.eq('%s: reference frequency' % what, ls.pc, w, ite(flt(fc, FC(Fraction(1, 4))), PI, FC(0)))
            ck.eq('%s: reference gain' % what, ls.pc, g, FC(1))
        else:
            ck.eq('%s: reference frequency' % what, ls.pc, w, fvar('tW2'))
            ck.eq('%s: reference gain' % what, ls.pc, g, fvar('tG2'))
        # after setLayout
        sp = ex.load(o.st, cq.plus(v.stages), ir.PTR)
        ck.ok('%s: the sections are those made by setLayout' % what, untouched(o.st, sp, 'L3'))
        ck.eq('%s: number of sections' % what, o.st.pc, ex.load(o.st, cq.plus(v.cnum), I32), idiv(iadd(imul(S.n, IC(TRANS[t])), IC(1)), IC(2)))
        num = one(ex, 'op_%s_num' % key, [S.q], o.st.clone()).val
        ck.eq('%s: number of sections of the filter' % what, o.st.pc, num, idiv(iadd(imul(S.n, IC(TRANS[t])), IC(1)), IC(2)))
        ck.ok('%s: all its sections are reserved storage of the filter' % what, sp.reg == S.d['stages'].reg, sp.reg)
        ck.feasible('%s: setup' % what, o.st.pc)
    ck.ok('%s: returns' % what, n > 0)
    return S


def untouched(st, p, nm):
    m = st.mem.get(p.reg)
    return m is not None and hasattr(m, 'leaf') and all(ch == ('base', '%s.%d' % (nm, o)) for o, ch in m.leaf.items())
