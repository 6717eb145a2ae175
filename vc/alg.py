"""Deciding equalities and inequalities of real terms (mode R).

Terms are normalised to rational functions over atoms; trigonometric functions
are expanded to base angles, exponentials to base exponents, roots satisfy their
defining relation.  An equality holds if the numerator of the difference
reduces to zero, i.e. wherever the divisions occurring in it are defined.
Inequalities go to z3 (nlsat) over the same atoms with their axioms."""
from fractions import Fraction as Fr
from math import gcd
import time
import z3
from term import *
import term as tm
import smt

stats = {'eq': 0, 'ineq': 0, 'eq_time': 0.0, 'ineq_time': 0.0}


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- polynomials
# dict: monomial -> Fraction;  monomial = tuple of (atom index, exponent), sorted

def pconst(c):
    return {(): Fr(c)} if c else {}


def padd(a, b, k=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class TooBig(Undecided):
    pass


DEADLINE = [0]


LIMIT = 400000


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > LIMIT * 20:
        raise TooBig('polynomial too large')
    if DEADLINE[0] and len(a) * len(b) > 100 and time.time() > DEADLINE[0]:
        raise TooBig('the time for one equation is used up')
    if len(a) == 1:
        (m, c), = a.items()
        if not m:
            return {k: v * c for k, v in b.items()} if c != 1 else b
        return {mmul(m, k): v * c for k, v in b.items()}
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + c * d
    r = {k: v for k, v in r.items() if v}
    if len(r) > LIMIT:
        raise TooBig('polynomial too large')
    return r


def ppow(a, n):
    r = pconst(1)
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def content(p):
    """common monomial"""
    it = iter(p)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for x in list(g):
            e = d.get(x, 0)
            if e < g[x]:
                if e > 0:
                    g[x] = e
                else:
                    del g[x]
        if not g:
            break
    return tuple(sorted(g.items()))


def mdiv(m, g):
    d = dict(m)
    for x, e in g:
        d[x] -= e
        if not d[x]:
            del d[x]
    return tuple(sorted(d.items()))


ONE = {(): Fr(1)}


class Ctx:
    """one proof attempt: atom table and relations"""

    def __init__(self, angles=None, exps=None):
        self.atoms = []          # description
        self.index = {}
        self.rel = {}            # index -> (degree, num, den): atom^degree = num/den
        self.cs = {}             # index of csqrt_re -> (index of im, a(rf), b(rf))
        self.angD = angles if angles is not None else {}
        self.expD = exps if exps is not None else {}
        self.memo = {}
        self.used_positive = []  # (what, RF) : assumed-positive arguments (sqrt, log)

    # ---- atoms
    def atom(self, key):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.index[key] = i
        return i

    def rf_atom(self, key):
        return ({((self.atom(key), 1),): Fr(1)}, ONE)

    # ---- rational functions
    def add(self, a, b, k=1):
        if a[1] is b[1] or a[1] == b[1]:
            return self.simp((padd(a[0], b[0], k), a[1]))
        if not a[0]:
            return b if k == 1 else self.neg(b)
        if not b[0]:
            return a
        # common monomial denominators
        if len(a[1]) == 1 and len(b[1]) == 1:
            (ma, ca), = a[1].items()
            (mb, cb), = b[1].items()
            da, db = dict(ma), dict(mb)
            l = dict(da)
            for x, e in db.items():
                l[x] = max(l.get(x, 0), e)
            fa = tuple(sorted((x, e - da.get(x, 0)) for x, e in l.items() if e - da.get(x, 0)))
            fb = tuple(sorted((x, e - db.get(x, 0)) for x, e in l.items() if e - db.get(x, 0)))
            n = padd(pmul(a[0], {fa: 1 / ca}), pmul(b[0], {fb: 1 / cb}), k)
            return self.simp((n, {tuple(sorted(l.items())): Fr(1)}))
        q = self.divides(a[1], b[1])
        if q is not None:
            return self.simp((padd(pmul(a[0], q), b[0], k), b[1]))
        q = self.divides(b[1], a[1])
        if q is not None:
            return self.simp((padd(a[0], pmul(b[0], q), k), a[1]))
        return self.simp((padd(pmul(a[0], b[1]), pmul(b[0], a[1]), k), pmul(a[1], b[1])))

    def divides(self, a, b):
        """b / a if exact (cheap cases)"""
        if len(a) == 1:
            (m, c), = a.items()
            if not m:
                return {k: v / c for k, v in b.items()}
            return None
        if len(b) > 3000 or len(a) > 60:
            return None
        return pdivexact(b, a)

    def neg(self, a):
        return ({m: -c for m, c in a[0].items()}, a[1])

    def mul(self, a, b):
        if not a[0] or not b[0]:
            return ({}, ONE)
        if a[0] == b[1] and len(a[0]) > 1:
            return (b[0], a[1])
        if b[0] == a[1] and len(b[0]) > 1:
            return (a[0], b[1])
        return self.simp((pmul(a[0], b[0]), pmul(a[1], b[1])))

    def div(self, a, b):
        if not b[0]:
            raise Undecided('division by zero')
        if not a[0]:
            return a
        if a[1] == b[1]:
            return self.simp((a[0], b[0]))
        return self.mul(a, (b[1], b[0]))

    def simp(self, a):
        n, d = a
        if not n:
            return ({}, ONE)
        if d is not ONE:
            n, d = self.reduce2(n), self.reduce2(d)
            if not n:
                return ({}, ONE)
            if len(d) == 1:
                (m, c), = d.items()
                if c != 1:
                    n = {k: v / c for k, v in n.items()}
                    d = {m: Fr(1)}
                if m:
                    g = content(n)
                    if g:
                        gm = dict(m)
                        h = tuple(sorted((x, min(e, gm[x])) for x, e in g if x in gm))
                        if h:
                            n = {mdiv(k, h): v for k, v in n.items()}
                            d = {mdiv(m, h): Fr(1)}
            else:
                g1, g2 = content(n), content(d)
                if g1 and g2:
                    gm = dict(g2)
                    h = tuple(sorted((x, min(e, gm[x])) for x, e in g1 if x in gm))
                    if h:
                        n = {mdiv(k, h): v for k, v in n.items()}
                        d = {mdiv(k, h): v for k, v in d.items()}
                if len(n) == len(d):
                    m = next(iter(d))
                    if m in n:
                        r = n[m] / d[m]
                        if all(n.get(k) == v * r for k, v in d.items()):
                            return (pconst(r), ONE)
                elif len(n) > len(d) and len(d) <= 40 and len(n) <= 2000:
                    q = pdivexact(n, d)
                    if q is not None:
                        return (q, ONE)
        else:
            n = self.reduce2(n)
        return (n, d)

    def reduce2(self, p):
        """cheap polynomial reductions: relations with constant denominators"""
        for i in list(self.rel):
            deg, N, D = self.rel[i]
            if len(D) == 1 and () in D:
                while True:
                    hit = False
                    for m in p:
                        for x, e in m:
                            if x == i and e >= deg:
                                hit = True
                                break
                        if hit:
                            break
                    if not hit:
                        break
                    out = {}
                    rest = {}
                    for m, c in p.items():
                        e = dict(m).get(i, 0)
                        if e >= deg:
                            m2 = tuple((x, y) if x != i else (x, y - deg) for x, y in m)
                            m2 = tuple((x, y) for x, y in m2 if y)
                            rest[m2] = rest.get(m2, 0) + c / D[()]
                        else:
                            out[m] = c
                    p = padd(out, pmul({k: v for k, v in rest.items() if v}, N))
        return p

    def full_reduce(self, n):
        """reduce the numerator by all relations (multiplying by nonzero denominators)"""
        # most recently created atoms first
        for rnd in range(60):
            ch = False
            idx = {x for m in n for x, _ in m}
            for i in sorted(idx, reverse=True):
                if i in self.rel:
                    deg, N, D = self.rel[i]
                    mx = max((dict(m).get(i, 0) for m in n), default=0)
                    if mx >= deg:
                        q = mx // deg
                        out = {}
                        groups = {}
                        for m, c in n.items():
                            e = dict(m).get(i, 0)
                            m2 = tuple((x, y) for x, y in m if x != i)
                            groups.setdefault(e, {})[m2] = c
                        for e, g in groups.items():
                            t = pmul(g, ppow(N, e // deg))
                            t = pmul(t, ppow(D, q - e // deg))
                            if e % deg:
                                t = pmul(t, {((i, e % deg),): Fr(1)})
                            out = padd(out, t)
                        n = out
                        ch = True
                        break
                if i in self.cs:
                    j, a, b = self.cs[i]
                    r = self.cs_reduce(n, i, j, a, b)
                    if r is not None:
                        n = r
                        ch = True
                        break
            if not n:
                return n
            if not ch:
                return n
        return n

    def cs_reduce(self, n, i, j, a, b):
        """s=atom i, t=atom j: s^2 = t^2 + a, s t = b/2, t^3 = s b/2 - a t, (s t^2 = b t/2)"""
        need = False
        mx = 0
        for m in n:
            d = dict(m)
            es, et = d.get(i, 0), d.get(j, 0)
            if es >= 2 or (es >= 1 and et >= 1) or et >= 3:
                need = True
        if not need:
            return None
        # a = an/ad, b = bn/bd
        an_, ad = a
        bn, bd = b
        # represent (s,t)-polynomials modulo the ideal in the basis 1,s,t,t^2 with rational function coefficients
        cache = {}

        def red(es, et):
            """vector over (1,s,t,t2) of RFs"""
            k = (es, et)
            if k in cache:
                return cache[k]
            Z = ({}, ONE)
            I1 = (ONE, ONE)
            if k == (0, 0):
                r = [I1, Z, Z, Z]
            elif k == (1, 0):
                r = [Z, I1, Z, Z]
            elif k == (0, 1):
                r = [Z, Z, I1, Z]
            elif k == (0, 2):
                r = [Z, Z, Z, I1]
            elif es >= 1:
                r = self.vmul(red(es - 1, et), 's', a, b)
            else:
                r = self.vmul(red(es, et - 1), 't', a, b)
            cache[k] = r
            return r
        tot = [({}, ONE)] * 4
        groups = {}
        for m, c in n.items():
            d = dict(m)
            es, et = d.get(i, 0), d.get(j, 0)
            m2 = tuple((x, y) for x, y in m if x != i and x != j)
            groups.setdefault((es, et), {})[m2] = c
        for (es, et), g in groups.items():
            v = red(es, et)
            for q in range(4):
                if v[q][0]:
                    tot[q] = self.add(tot[q], self.mul((g, ONE), v[q]))
        # combine numerators over a common denominator
        den = ONE
        for v in tot:
            if v[0] and v[1] != den:
                qd = self.divides(den, v[1])
                if qd is not None:
                    den = v[1]
                elif self.divides(v[1], den) is None:
                    den = pmul(den, v[1])
        out = {}
        basis = [ONE, {((i, 1),): Fr(1)}, {((j, 1),): Fr(1)}, {((j, 2),): Fr(1)}]
        for v, bb in zip(tot, basis):
            if v[0]:
                f = den if v[1] is ONE or v[1] == ONE else self.divides(v[1], den)
                if f is None:
                    raise Undecided('denominators')
                out = padd(out, pmul(pmul(v[0], f), bb))
        return out

    def vmul(self, v, w, a, b):
        h = (pconst(Fr(1, 2)), ONE)
        b2 = self.mul(b, h)
        c1, cs, ct, ct2 = v
        if w == 's':
            # 1->s ; s->s^2 = t^2+a ; t-> st = b/2 ; t^2 -> s t^2 = b t/2
            return [self.add(self.mul(cs, a), self.mul(ct, b2)), c1, self.mul(ct2, b2), cs]
        # 1->t ; s->b/2 ; t->t^2 ; t^2 -> t^3 = s b/2 - a t
        return [self.mul(cs, b2), self.mul(ct2, b2), self.add(c1, self.mul(ct2, a), -1), ct]

    # ---- linear combinations of units
    def units(self, rf):
        """[(unit, coefficient)]: unit is a hashable key, its rf"""
        n, d = rf
        if len(d) == 1:
            (dm, dc), = d.items()
            out = []
            for m, c in sorted(n.items()):
                k = dict(m)
                for x, e in dm:
                    k[x] = k.get(x, 0) - e
                u = tuple(sorted((x, e) for x, e in k.items() if e))
                out.append((('m', u), c / dc))
            return out
        # canonical: leading coefficient of the numerator 1
        lead = n[min(n)]
        l2 = d[min(d)]
        n2 = {m: c / lead for m, c in n.items()}
        d2 = {m: c / l2 for m, c in d.items()}
        return [(('q', pkey(n2), pkey(d2)), lead / l2)]

    def unit_rf(self, u):
        if u[0] == 'm':
            n = tuple((x, e) for x, e in u[1] if e > 0)
            d = tuple((x, -e) for x, e in u[1] if e < 0)
            return ({n: Fr(1)}, {d: Fr(1)} if d else ONE)
        return (dict(u[1]), dict(u[2]))

    def D(self, table, u, q):
        d = table.get(u, 1)
        nd = d * q.denominator // gcd(d, q.denominator)
        if nd != d:
            table[u] = nd
            raise Restart()
        return d

    def is_pi(self, u):
        return u[0] == 'm' and len(u[1]) == 1 and u[1][0][1] == 1 and self.atoms[u[1][0][0]] is PI

    def unit_atom(self, u):
        """the atom if the unit is a single atom"""
        if u[0] == 'm' and len(u[1]) == 1 and u[1][0][1] == 1:
            return self.atoms[u[1][0][0]]
        return None

    def sincos(self, rf):
        """(sin, cos) of an rf"""
        s, c = ({}, ONE), (ONE, ONE)
        if not rf[0]:
            return s, c
        for u, q in self.units(rf):
            uk = self.ukey(u)
            d = self.D(self.angD, uk, q)
            m = int(q * d)
            if self.is_pi(u):
                s1, c1 = self.pimul(m, d)
            else:
                at = self.unit_atom(u)
                if isinstance(at, tuple) and at[0] == 'atan' and d == 1:
                    s1, c1 = self.atanmul(at, m)
                else:
                    s1, c1 = self.angmul(uk, m, d)
            s, c = (self.add(self.mul(s, c1), self.mul(c, s1)), self.add(self.mul(c, c1), self.mul(s, s1), -1))
        return s, c

    def ukey(self, u):
        """context independent key of a unit"""
        if u[0] == 'm':
            return ('m', tuple(sorted(((self.atoms[x], e) for x, e in u[1]), key=lambda y: repr(y[0]) if not isinstance(y[0], T) else 'T%08d' % y[0].id)))
        return u

    def pimul(self, m, d):
        m %= 2 * d
        if d == 1:
            return ({}, ONE), (pconst(1 if m == 0 else -1), ONE)
        if d == 2:
            return [(({}, ONE), (ONE, ONE)), ((ONE, ONE), ({}, ONE)), (({}, ONE), (pconst(-1), ONE)), ((pconst(-1), ONE), ({}, ONE))][m]
        # reduce by quarter turns as far as possible
        if d % 2 == 0:
            qn, r = divmod(m, d // 2)
        else:
            qn, r = (2, m - d) if m >= d else (0, m)
        s1, c1 = self.angmul(('pi',), r, d)
        for _ in range(qn):
            s1, c1 = c1, self.neg(s1)
        return s1, c1

    def angmul(self, uk, m, d):
        si = self.atom(('sin', uk, d))
        ci = self.atom(('cos', uk, d))
        if si not in self.rel:
            self.rel[si] = (2, {(): Fr(1), ((ci, 2),): Fr(-1)}, ONE)
        S, C = ({((si, 1),): Fr(1)}, ONE), ({((ci, 1),): Fr(1)}, ONE)
        s, c = ({}, ONE), (ONE, ONE)
        for _ in range(abs(m)):
            s, c = (self.add(self.mul(s, C), self.mul(c, S)), self.add(self.mul(c, C), self.mul(s, S), -1))
        return (s, c) if m >= 0 else (self.neg(s), c)

    def atanmul(self, at, m):
        X = at[2]
        X = (dict(X[0]), dict(X[1]))
        # (1 + iX)^|m| / (1+X^2)^(|m|/2)
        re, im = (ONE, ONE), ({}, ONE)
        for _ in range(abs(m)):
            re, im = self.add(re, self.mul(im, X), -1), self.add(im, self.mul(re, X))
        n2 = self.add((ONE, ONE), self.mul(X, X))
        for _ in range(abs(m) // 2):
            re, im = self.div(re, n2), self.div(im, n2)
        if m % 2:
            r = self.root(n2, 2, 'sqrt')
            re, im = self.div(re, r), self.div(im, r)
        return (im, re) if m >= 0 else (self.neg(im), re)

    def canon(self, rf):
        return (pkey(rf[0]), pkey(rf[1]))

    def root(self, rf, deg, name):
        """positive deg-th root of rf (assumed non-negative)"""
        if not rf[0]:
            return rf
        rf = self.simp(rf)
        # constants that are perfect powers
        if list(rf[0]) == [()] and list(rf[1]) == [()]:
            v = rf[0][()] / rf[1][()]
            from math import isqrt
            if deg == 2 and v > 0:
                a, b = isqrt(v.numerator), isqrt(v.denominator)
                if a * a == v.numerator and b * b == v.denominator:
                    return (pconst(Fr(a, b)), ONE)
        key = ('root', deg, self.canon(rf))
        if key not in self.index:
            # the root of the inverse is the inverse of the root (both are real for the same arguments)
            inv = self.simp((rf[1], rf[0]))
            k2 = ('root', deg, self.canon(inv))
            if k2 in self.index:
                return self.simp((ONE, {((self.index[k2], 1),): Fr(1)}))
        i = self.atom(key)
        if i not in self.rel:
            self.rel[i] = (deg, rf[0], rf[1])
            self.used_positive.append((name, rf))
        return ({((i, 1),): Fr(1)}, ONE)

    def exp(self, rf):
        r = (ONE, ONE)
        for u, q in self.units(rf) if rf[0] else []:
            uk = self.ukey(u)
            d = self.D(self.expD, uk, q)
            m = int(q * d)
            at = self.unit_atom(u)
            b = None
            if at is LN10 or at is LN2:
                b = (pconst(10 if at is LN10 else 2), ONE)
            elif isinstance(at, tuple) and at[0] == 'log':
                b = (dict(at[1][0]), dict(at[1][1]))
            if b is not None:
                b = self.root(b, d, 'log') if d > 1 else b
            else:
                i = self.atom(('exp', uk, d))
                b = ({((i, 1),): Fr(1)}, ONE)
            for _ in range(abs(m)):
                r = self.mul(r, b) if m > 0 else self.div(r, b)
        return r

    def log(self, rf):
        rf = self.simp(rf)
        if rf == (ONE, ONE):
            return ({}, ONE)
        n, d = rf
        if len(n) == 1 and len(d) == 1:
            (mn, cn), = n.items()
            (md, cd), = d.items()
            out = ({}, ONE)
            ok = True
            for mm, sg in ((mn, 1), (md, -1)):
                for x, e in mm:
                    k = self.atoms[x]
                    if isinstance(k, tuple) and k[0] == 'exp':
                        t = self.mul(self.unit_rf_of_key(k[1]), (pconst(Fr(e * sg, k[2])), ONE))
                        out = self.add(out, t)
                    elif isinstance(k, tuple) and k[0] == 'root':
                        t = self.log((dict(k[2][0]), dict(k[2][1])))
                        out = self.add(out, self.mul(t, (pconst(Fr(e * sg, k[1])), ONE)))
                    elif k is PI or True:
                        t = self.rf_atom(('log', (pkey({((x, 1),): Fr(1)}), pkey(ONE))))
                        out = self.add(out, self.mul(t, (pconst(e * sg), ONE)))
            v = cn / cd
            if v < 0:
                ok = False
            if ok:
                if v != 1:
                    if v == 10:
                        out = self.add(out, self.rf_atom(LN10))
                    elif v == 2:
                        out = self.add(out, self.rf_atom(LN2))
                    elif v == Fr(1, 10):
                        out = self.add(out, self.rf_atom(LN10), -1)
                    else:
                        out = self.add(out, self.rf_atom(('log', (pkey(pconst(v)), pkey(ONE)))))
                self.used_positive.append(('log', rf))
                return out
        self.used_positive.append(('log', rf))
        return self.rf_atom(('log', self.canon(rf)))

    def unit_rf_of_key(self, uk):
        if uk[0] == 'm':
            n, d = [], []
            for a, e in uk[1]:
                (n if e > 0 else d).append((self.atom(a), abs(e)))
            return ({tuple(sorted(n)): Fr(1)}, {tuple(sorted(d)): Fr(1)} if d else ONE)
        return (dict(uk[1]), dict(uk[2]))

    # ---- terms
    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.norm_(t)
            self.memo[t] = r
        return r

    def norm_(self, t):
        o = t.op
        N = self.norm
        if o == 'fc':
            return (pconst(fval(t)), ONE)
        if o == 'fadd':
            return self.add(N(t.args[0]), N(t.args[1]))
        if o == 'fsub':
            return self.add(N(t.args[0]), N(t.args[1]), -1)
        if o == 'fmul':
            return self.mul(N(t.args[0]), N(t.args[1]))
        if o == 'fdiv':
            return self.div(N(t.args[0]), N(t.args[1]))
        if o == 'fneg':
            return self.neg(N(t.args[0]))
        if o == 'ite':
            raise Undecided('conditional value')
        if o == 'inf':
            raise Undecided('infinity in arithmetic')
        if o == 'i2f' and t.args[0].op == 'lin':
            r = (pconst(t.args[0].args[0]), ONE)
            for a, c in t.args[0].args[1]:
                r = self.add(r, self.mul((pconst(c), ONE), N(mk('i2f', (a,), 'f'))))
            return r
        if o == 'i2f' and t.args[0].op == 'imul':
            return self.mul(N(i2f(t.args[0].args[0])), N(i2f(t.args[0].args[1])))
        if o == 'fn':
            nm = t.args[0]
            a = t.args[1:]
            if nm in ('sin', 'cos', 'tan'):
                s, c = self.sincos(N(a[0]))
                return s if nm == 'sin' else c if nm == 'cos' else self.div(s, c)
            if nm == 'sqrt':
                return self.root(N(a[0]), 2, 'sqrt')
            if nm == 'cbrt':
                return self.root(N(a[0]), 3, 'sqrt')
            if nm == 'exp':
                return self.exp(N(a[0]))
            if nm == 'log':
                return self.log(N(a[0]))
            if nm == 'pow':
                b = N(a[0])
                e = N(a[1])
                if list(e[0]) in ([()], []) and list(e[1]) == [()]:
                    v = e[0].get((), Fr(0)) / e[1][()]
                    if v.denominator == 1 and abs(v) <= 12:
                        r = (ONE, ONE)
                        for _ in range(abs(int(v))):
                            r = self.mul(r, b) if v > 0 else self.div(r, b)
                        return r
                return self.exp(self.mul(e, self.log(b)))
            if nm in ('sinh', 'cosh', 'tanh'):
                e = self.exp(N(a[0]))
                i = self.div((ONE, ONE), e)
                h = (pconst(Fr(1, 2)), ONE)
                sh, ch = self.mul(self.add(e, i, -1), h), self.mul(self.add(e, i), h)
                return sh if nm == 'sinh' else ch if nm == 'cosh' else self.div(sh, ch)
            if nm == 'atan':
                X = N(a[0])
                # odd function: canonical sign
                return self.rf_atom(('atan', None, self.canon(X))) if X[0] else X
            if nm in ('csqrt_re', 'csqrt_im'):
                A, Bq = N(a[0]), N(a[1])
                key = (self.canon(A), self.canon(Bq))
                i = self.atom(('csre',) + key)
                j = self.atom(('csim',) + key)
                self.cs[i] = (j, A, Bq)
                return ({((i if nm == 'csqrt_re' else j, 1),): Fr(1)}, ONE)
            return self.rf_atom(('fn', nm) + tuple(self.canon(N(x)) if x.sort == 'f' else x for x in a))
        return self.rf_atom(t)


class Restart(Exception):
    pass


def pdivexact(n, d):
    """exact division of polynomials or None (lexicographic leading terms)"""
    def lt(p):
        return max(p, key=_mord)
    ld = lt(d)
    ldc = d[ld]
    q = {}
    n = dict(n)
    steps = 0
    while n:
        steps += 1
        if steps > 400:
            return None
        ln = lt(n)
        dd = dict(ln)
        for x, e in ld:
            if dd.get(x, 0) < e:
                return None
            dd[x] -= e
        m = tuple(sorted((x, e) for x, e in dd.items() if e))
        c = n[ln] / ldc
        q[m] = c
        for k, v in d.items():
            kk = mmul(m, k)
            w = n.get(kk, 0) - c * v
            if w:
                n[kk] = w
            else:
                n.pop(kk, None)
    return q


def _mord(m):
    # a monomial order: graded by highest atom index first (lex on descending index)
    return tuple(sorted(((x, e) for x, e in m), reverse=True))


def run(f):
    """run f(ctx), restarting while the base angles are being refined"""
    ang, ex = {}, {}
    for _ in range(60):
        c = Ctx(ang, ex)
        try:
            return f(c)
        except Restart:
            continue
    raise Undecided('angles')


# ---------------------------------------------------------------- equalities
def hyp_substs(c, pc, extra=()):
    """equations of the path condition, as numerators"""
    out = []
    for h in pc:
        if h.op == 'feq':
            if any(atoms_of(x, lambda y: y.op in ('ite', 'inf')) for x in h.args):
                continue
            try:
                n = c.add(c.norm(h.args[0]), c.norm(h.args[1]), -1)[0]
            except Undecided:
                continue
            if n:
                out.append(n)
    return out


def lin_solve(n):
    """an atom occurring linearly with a constant coefficient -> (atom, numerator rest)"""
    best = None
    deg = {}
    for m in n:
        for x, e in m:
            deg.setdefault(x, []).append((m, e))
    for x, occ in sorted(deg.items(), reverse=True):
        if len(occ) == 1 and occ[0][1] == 1 and len(occ[0][0]) == 1:
            m = occ[0][0]
            rest = {k: -v / n[m] for k, v in n.items() if k != m}
            return x, rest
    return None


def psubst(p, x, q):
    mx = max((dict(m).get(x, 0) for m in p), default=0)
    if not mx:
        return p
    out = {}
    for m, c in p.items():
        e = dict(m).get(x, 0)
        m2 = tuple((y, k) for y, k in m if y != x)
        t = {m2: c}
        if e:
            t = pmul(t, ppow(q, e))
        out = padd(out, t)
    return out


def zero_under(pc, t1, t2, tries=None):
    def f(c):
        a, b = c.norm(t1), c.norm(t2)
        d = c.add(a, b, -1)
        n = c.full_reduce(d[0])
        if not n:
            return True
        hs = hyp_substs(c, pc)
        sol = []
        for h in hs:
            for s in sol:
                h = psubst(h, *s)
            s = lin_solve(h) if h else None
            if s is None:
                continue
            sol.append(s)
            n = c.full_reduce(psubst(n, *s))
            if not n:
                return True
        # product hypotheses: a hypothesis numerator dividing n
        for h in hs:
            if len(h) <= 60:
                try:
                    if pdivexact(n, h) is not None:
                        return True
                    if len(h) <= 12 and pdivexact(n, c.full_reduce(pmul(h, h))) is not None:
                        return True
                except Undecided:
                    pass
        f.rest = (c, n)
        return False
    f.rest = None
    r = run(f)
    zero_under.rest = f.rest
    return r


zero_under.rest = None


def split_ites(pc, ts, feasible=None, depth=0, every=False):
    """yield (pc, ts) with all conditionals in ts (every: and in pc) resolved"""
    feasible = feasible or (lambda p: smt.feasible(p))
    its = []
    for t in list(ts) + list(pc if every else ()):
        its += atoms_of(t, lambda x: x.op == 'ite' and x.sort == 'f' or x.op == 'ite' and x.sort == 'i')
    # resolve in subterm order: innermost conditions first
    its = [i for i in its if not atoms_of(i.args[0], lambda x: x.op == 'ite')]
    if not its:
        yield pc, ts
        return
    if depth > 14:
        raise Undecided('too many cases')
    it = min(its, key=lambda x: x.id)
    c = it.args[0]
    for val, br in ((c, 1), (nt(c), 2)):
        if val is FALSE or nt(val) in pc:
            continue
        p2 = tuple(pc) + tuple(x for x in (val.args if val.op == 'and' else (val,)) if x not in pc)
        if val not in pc and not feasible(p2):
            continue
        m = {}
        for i in its:
            if i.args[0] is c:
                m[i] = i.args[br] if i.sort == 'f' else i.args[br]
        for h in p2:
            for i in atoms_of(h, lambda x: x.op == 'ite' and x.args[0] is c):
                m[i] = i.args[br]
        p2 = resolve(p2, m)
        yield from split_ites(p2, [subst(t, m) for t in ts], feasible, depth + 1, every)


def resolve(pc, m):
    out = ()
    for h in pc:
        h = subst(h, m)
        for x in (h.args if h.op == 'and' else (h,)):
            if x is not TRUE and x not in out:
                out += (x,)
    return out


def literal(h):
    """(x - y, the signs which h allows it)"""
    n = h.op == 'not'
    c = h.args[0] if n else h
    s = {'feq': '0', 'flt': '-', 'fle': '-0'}.get(c.op)
    if s is None or any(x is INF for x in c.args):
        return None
    return c.args[0] - c.args[1], set('-0+') - set(s) if n else set(s)


def clash(p, pc):
    """a condition of p which is not in pc contradicts another one, the two being about the same number"""
    neg = {'-': '+', '0': '0', '+': '-'}
    ls = [(h, literal(h)) for h in p]
    ls = [(h, l, free(l[0])) for h, l in ls if l is not None]
    for h, (t, s), v in ls:
        if h in pc:
            continue
        for g, (u, r), w in ls:
            if g is h or v != w:
                continue
            rest = tuple(x for x in p if x is not h and x is not g)
            try:
                if not s & r and zero_under(rest, t, u):
                    return True
                if not s & {neg[x] for x in r} and zero_under(rest, t, -u):
                    return True
            except Undecided:
                pass
    return False


def pinned(pc, ts):
    """integer variables which pc forces to zero"""
    m = {}
    for v in {z for t in ts for z in atoms_of(t, lambda y: y.op == 'ivar')}:
        if smt.entails(pc, ieq(tm.iatom(v), IC(0))):
            m[v] = IC(0)
    return m


def prove_eq(pc, a, b, why=None):
    """a == b under pc"""
    t0 = time.time()
    stats['eq'] += 1
    outer = not DEADLINE[0]
    if outer:
        DEADLINE[0] = t0 + 60
    try:
        if a is b:
            return True
        for p, (x, y) in split_ites(tuple(pc), [a, b]):
            if x is y:
                continue
            if x is INF or y is INF:
                if smt.feasible(p):
                    return False
                continue
            if not zero_under(p, x, y):
                if smt.entails(p, FALSE) or clash(p, pc):
                    continue
                m = pinned(p, (x, y))
                if m:
                    x, y = subst(x, m), subst(y, m)
                    if x is y or zero_under(p, x, y):
                        continue
                return False
        return True
    finally:
        if outer:
            DEADLINE[0] = 0
        stats['eq_time'] += time.time() - t0


# ---------------------------------------------------------------- inequalities
class Z:
    """translation of atoms to z3 reals with axioms"""

    def __init__(self, c, pc):
        self.c, self.pc = c, pc
        self.v = {}
        self.ax = []

    def var(self, i):
        r = self.v.get(i)
        if r is None:
            r = z3.Real('a%d' % i)
            self.v[i] = r
            self.axiom(i, r)
        return r

    def poly(self, p):
        r = None
        for m, c in p.items():
            t = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            for x, e in m:
                for _ in range(e):
                    t = t * self.var(x)
            r = t if r is None else r + t
        return r if r is not None else z3.RealVal(0)

    def axiom(self, i, r):
        k = self.c.atoms[i]
        A = self.ax.append
        if i in self.c.rel:
            deg, N, D = self.c.rel[i]
            l = r
            for _ in range(deg - 1):
                l = l * r
            A(l * self.poly(D) == self.poly(N))
        if isinstance(k, T):
            if k is PI:
                A(r > z3.RealVal('3.14159265358'))
                A(r < z3.RealVal('3.14159265359'))
            elif k is LN2:
                A(r > z3.RealVal('0.693'))
                A(r < z3.RealVal('0.694'))
            elif k is LN10:
                A(r > z3.RealVal('2.302'))
                A(r < z3.RealVal('2.303'))
            elif k.op == 'i2f':
                if k.args[0].op == 'ivar' and k.args[0].args[1] or nonneg(tm.iatom(k.args[0])):
                    A(r >= 0)
            return
        if k[0] in ('sin', 'cos'):
            A(r >= -1)
            A(r <= 1)
            lo, hi = self.range_pi(k[1], k[2])
            # bounds of the angle in multiples of pi
            if k[0] == 'sin':
                if lo is not None and hi is not None:
                    if lo[0] >= 0 and hi[0] <= 1:
                        A(r > 0 if (lo[0] > 0 or lo[1]) and (hi[0] < 1 or hi[1]) else r >= 0)
                    if lo[0] >= Fr(-1, 2) and hi[0] <= Fr(1, 2):
                        # sign of sin = sign of angle handled by the case above
                        if (lo[0] > Fr(-1, 2) or lo[1]) and (hi[0] < Fr(1, 2) or hi[1]):
                            A(r < 1)
                            A(r > -1)
            else:
                if lo is not None and hi is not None:
                    if lo[0] >= Fr(-1, 2) and hi[0] <= Fr(1, 2):
                        A(r > 0 if (lo[0] > Fr(-1, 2) or lo[1]) and (hi[0] < Fr(1, 2) or hi[1]) else r >= 0)
                    if lo[0] >= 0 and hi[0] <= 1 and (lo[0] > 0 or lo[1]) and (hi[0] < 1 or hi[1]):
                        A(r < 1)
                        A(r > -1)
            other = self.c.index.get(('cos' if k[0] == 'sin' else 'sin', k[1], k[2]))
            if other is not None and other not in self.v:
                self.var(other)
        elif k[0] == 'root':
            A(r >= 0)
        elif k[0] == 'exp':
            A(r > 0)
            # monotonicity at zero
            rf = self.c.unit_rf_of_key(k[1])
            s = self.poly(rf[0]) * self.poly(rf[1])
            A(z3.Implies(s > 0, r > 1))
            A(z3.Implies(s < 0, r < 1))
            A(z3.Implies(s == 0, r == 1))
        elif k[0] == 'log':
            n, d = dict(k[1][0]), dict(k[1][1])
            nn, dd = self.poly(n), self.poly(d)
            A(z3.Implies(nn * dd > dd * dd, r > 0))
            A(z3.Implies(z3.And(nn * dd < dd * dd, nn * dd > 0), r < 0))
        elif k[0] == 'csre':
            A(r >= 0)
            j, a, b = self.c.cs[i]
            t = self.var(j)
            A((r * r - t * t) * self.poly(a[1]) == self.poly(a[0]))
            A(2 * r * t * self.poly(b[1]) == self.poly(b[0]))
        elif k[0] == 'csim':
            self.var(self.c.index[('csre',) + k[1:]])
        elif k[0] == 'atan':
            n, d = dict(k[2][0]), dict(k[2][1])
            s = self.poly(n) * self.poly(d)
            A(z3.Implies(s > 0, r > 0))
            A(z3.Implies(s < 0, r < 0))
        elif k[0] == 'fn' and k[1] in ('fabs', 'cabs'):
            A(r >= 0)

    def range_pi(self, uk, d):
        """bounds (value, strict) of unit/(d*pi)"""
        if uk == ('pi',):
            return (Fr(1, d), False), (Fr(1, d), False)
        if uk[0] != 'm':
            return None, None
        ms = [(a, e) for a, e in uk[1] if not (a is PI)]
        pis = [e for a, e in uk[1] if a is PI]
        if pis != [1]:
            return None, None
        # product of the remaining atoms
        lo = hi = None
        if len(ms) == 1 and ms[0][1] == 1 and isinstance(ms[0][0], T):
            t = ms[0][0]
            for cand in (Fr(0), Fr(1, 4), Fr(1, 2), Fr(1), Fr(-1, 2), Fr(2)):
                for strict in (True, False):
                    c1 = flt(FC(cand), t) if strict else fle(FC(cand), t)
                    if smt.entails(self.pc, c1) and (lo is None or cand > lo[0]):
                        lo = (cand, strict)
                    c2 = flt(t, FC(cand)) if strict else fle(t, FC(cand))
                    if smt.entails(self.pc, c2) and (hi is None or cand < hi[0]):
                        hi = (cand, strict)
        elif len(ms) == 2:
            # i/n
            num = [a for a, e in ms if e == 1]
            den = [a for a, e in ms if e == -1]
            if len(num) == 1 and len(den) == 1:
                a, b = num[0], den[0]
                if isinstance(a, T) and isinstance(b, T) and smt.entails(self.pc, flt(FC(0), b)):
                    if smt.entails(self.pc, fle(FC(0), a)):
                        lo = (Fr(0), smt.entails(self.pc, flt(FC(0), a)))
                    for q in (Fr(1), Fr(1, 2), Fr(1, 4)):
                        if smt.entails(self.pc, flt(a, FC(q) * b)):
                            hi = (q, True)
                        elif smt.entails(self.pc, fle(a, FC(q) * b)):
                            hi = (q, False)
        if lo is not None:
            lo = (lo[0] / d, lo[1])
        if hi is not None:
            hi = (hi[0] / d, hi[1])
        return lo, hi


def cmp_z3(z, c, h):
    """z3 formula of a comparison term, or None"""
    if h.op == 'not':
        x = cmp_z3(z, c, h.args[0])
        return None if x is None else z3.Not(x)
    if h.op == 'and':
        xs = [cmp_z3(z, c, x) for x in h.args]
        if any(x is None for x in xs):
            return None
        return z3.And(xs)
    if h.op in ('flt', 'fle', 'feq'):
        if any(atoms_of(x, lambda y: y.op in ('ite', 'inf', 'nanc')) for x in h.args):
            return None
        try:
            d = c.add(c.norm(h.args[1]), c.norm(h.args[0]), -1)
        except Undecided:
            return None
        n, e = z.poly(d[0]), z.poly(d[1])
        s = n if d[1] is ONE else n * e
        return {'flt': s > 0, 'fle': s >= 0, 'feq': n == 0}[h.op]
    if h.op in ('ile0', 'ieq0'):
        r = (pconst(0), ONE)
        r = c.norm(i2f(h.args[0]))
        n = z.poly(r[0])
        return n <= 0 if h.op == 'ile0' else n == 0
    if h.op == 'true':
        return z3.BoolVal(True)
    if h.op == 'false':
        return z3.BoolVal(False)
    if h.op in ('bvar', 'isinf'):
        return z3.Bool('b%d' % h.id)
    return None


def prove_cmp(pc, goal, timeout=20000, hints=(), model=None):
    """goal: comparison of real terms, under pc and already established hints"""
    stats['ineq'] += 1
    t0 = time.time()
    try:
        ts = []

        def one(p, g):
            def f(c):
                z = Z(c, p)
                gz = cmp_z3(z, c, g)
                if gz is None:
                    return False
                s = z3.SolverFor('QF_NRA') if not hints else z3.SolverFor('QF_NRA')
                s.set('timeout', timeout)
                hs = []
                for h in list(p) + list(hints):
                    if atoms_of(h, lambda y: y.op == 'ite'):
                        continue
                    x = cmp_z3(z, c, h)
                    if x is not None:
                        hs.append(x)
                for h in hs + z.ax:
                    s.add(h)
                s.add(z3.Not(gz))
                # axioms may introduce further atoms
                seen = len(z.ax)
                r = s.check()
                if r == z3.sat and model is not None:
                    model.append(str(s.model()))
                return r == z3.unsat
            return run(f)
        # resolve conditionals
        def sides(g):
            return [g]
        for p, gs in split_ites(tuple(pc), [goal]):
            g = gs[0]
            if g is TRUE:
                continue
            if not one(p, g):
                return False
        return True
    finally:
        stats['ineq_time'] += time.time() - t0


def prove(pc, goal, **kw):
    """any boolean goal"""
    if goal is TRUE or goal in pc:
        return True
    if goal.op == 'and':
        return all(prove(pc, g, **kw) for g in goal.args)
    if goal.op == 'not' and goal.args[0].op == 'and':
        # disjunction: assume the negation of all but one
        ds = [nt(x) for x in goal.args[0].args]
        if smt.entails(pc, goal):
            return True
        for i, d in enumerate(ds):
            rest = tuple(nt(x) for j, x in enumerate(ds) if j != i)
            if prove(tuple(pc) + rest, d, **kw):
                return True
        return False
    if goal.op == 'feq':
        if prove_eq(pc, *goal.args):
            return True
        if smt.entails(pc, goal):
            return True
        return prove_cmp(pc, goal, **kw) if kw.get('deep') else False
    if smt.entails(pc, goal):
        return True
    if goal.op in ('flt', 'fle', 'not'):
        kw.pop('deep', None)
        return prove_cmp(pc, goal, **kw)
    return False
