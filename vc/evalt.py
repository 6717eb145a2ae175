"""Numeric evaluation of terms, used to look for a falsifying point of an obligation
that was not proved. mpmath reals in mode R, IEEE doubles in mode F."""
import math, random, struct
import mpmath
from mpmath import mp, mpf
from term import *
import term as tm
import smt

mp.dps = 40


class NoValue(Exception):
    pass


NAN = float('nan')


def num(x):
    return mpf(x.numerator) / x.denominator if hasattr(x, 'numerator') and not isinstance(x, int) else mpf(x)


class Env:
    def __init__(self, rnd, vals=None):
        self.v = dict(vals or {})
        self.rnd = rnd
        self.memo = {}
        self.arr = {}

    def var(self, name, sort='f'):
        if name not in self.v:
            self.v[name] = pick(self.rnd, sort)
        return self.v[name]

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.ev_(t)
            self.memo[t] = r
        return r

    def ev_(self, t):
        o, a = t.op, t.args
        ev = self.ev
        R = mode() == 'R'
        if o == 'lin':
            return a[0] + sum(ev(x) * k for x, k in a[1])
        if o == 'ivar':
            return int(self.var(a[0], 'i'))
        if o == 'bvar':
            return bool(self.var(a[0], 'b'))
        if o == 'fvar':
            return mpf(self.var(a[0])) if R else float(self.var(a[0]))
        if o in ('sel', 'seli', 'selb'):
            k = (a[0], ev(a[1]))
            if k not in self.arr:
                self.arr[k] = pick(self.rnd, {'sel': 'f', 'seli': 'i', 'selb': 'b'}[o])
            v = self.arr[k]
            return v if o != 'sel' else (mpf(v) if R else float(v))
        if o == 'imul':
            return ev(a[0]) * ev(a[1])
        if o == 'idiv':
            x, y = ev(a[0]), ev(a[1])
            if y == 0:
                raise NoValue
            return int(math.trunc(mpf(x) / y)) if abs(x) > 2 ** 50 else int(x / y)
        if o == 'irem':
            x, y = ev(a[0]), ev(a[1])
            if y == 0:
                raise NoValue
            return x - y * int(x / y)
        if o == 'imod':
            return ev(a[0]) % ev(a[1])
        if o == 'ifloordiv':
            return ev(a[0]) // ev(a[1])
        if o == 'iand':
            return ev(a[0]) & ev(a[1])
        if o == 'iabs':
            return abs(ev(a[0]))
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'not':
            return not ev(a[0])
        if o == 'and':
            return all(ev(x) for x in a)
        if o == 'ile0':
            return ev(a[0]) <= 0
        if o == 'ieq0':
            return ev(a[0]) == 0
        if o == 'ite':
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if o == 'fc':
            return num(a[0]) if R else struct.unpack('>d', struct.pack('>Q', a[0]))[0]
        if o == 'pi':
            return mp.pi
        if o == 'ln2':
            return mp.log(2)
        if o == 'ln10':
            return mp.log(10)
        if o == 'inf':
            return mpf('inf')
        if o == 'nanc':
            return NAN
        if o == 'isinf':
            return bool(mpmath.isinf(ev(a[0])))
        if o == 'i2f':
            return mpf(ev(a[0])) if R else float(ev(a[0]))
        if o == 'fneg':
            return -ev(a[0])
        if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = ev(a[0]), ev(a[1])
            try:
                if o == 'fadd':
                    return x + y
                if o == 'fsub':
                    return x - y
                if o == 'fmul':
                    return x * y
                return x / y
            except ZeroDivisionError:
                if R:
                    raise NoValue
                return NAN if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
            except OverflowError:
                raise NoValue
        if o in ('flt', 'fle', 'feq'):
            x, y = ev(a[0]), ev(a[1])
            if o == 'flt':
                return x < y
            if o == 'fle':
                return x <= y
            return x == y or (R and close(x, y, 1e-30))
        if o == 'fnan':
            x = ev(a[0])
            return x != x
        if o == 'rec':
            k = ev(a[2])
            if k < 0 or k > 400:
                raise NoValue
            return self.rec(a[0], a[1], k)
        if o == 'fn':
            return self.fn(a[0], [ev(x) for x in a[1:]])
        raise NoValue(o)

    def rec(self, rid, comp, k):
        key = (rid, comp, k)
        r = self.memo.get(key)
        if r is None:
            ka, comps = tm.RECS[rid]
            ini, step = comps[comp]
            if k == 0:
                r = self.ev(ini)
            else:
                s = subst(step, {ka: IC(k - 1)})
                r = self.ev(s)
            self.memo[key] = r
        return r

    def fn(self, n, x):
        try:
            if mode() == 'F':
                return self.fnF(n, x)
            if n == 'csqrt_re':
                return mp.sqrt(mp.mpc(*x)).real
            if n == 'csqrt_im':
                return mp.sqrt(mp.mpc(*x)).imag
            if n in ('sqrt', 'log') and x[0] < 0:
                raise NoValue
            f = {'sin': mp.sin, 'cos': mp.cos, 'tan': mp.tan, 'exp': mp.exp, 'log': mp.log, 'sqrt': mp.sqrt, 'sinh': mp.sinh,
                 'cosh': mp.cosh, 'tanh': mp.tanh, 'atan': mp.atan, 'fabs': abs, 'asinh': mp.asinh, 'acosh': mp.acosh, 'acos': mp.acos,
                 'asin': mp.asin, 'pow': mp.power, 'hypot': mp.hypot, 'atan2': mp.atan2, 'floor': mp.floor,
                 'fmin': min, 'fmax': max, 'log10': mp.log10, 'log2': lambda v: mp.log(v, 2), 'exp2': lambda v: mp.power(2, v),
                 'cbrt': mp.cbrt, 'cabs': mp.hypot, 'round': mp.nint}.get(n)
            if n == 'f32':
                return mpf(struct.unpack('f', struct.pack('f', float(x[0])))[0])
            if n == 'copysign':
                return abs(x[0]) * (1 if x[1] >= 0 else -1)
            if f is None:
                raise NoValue(n)
            r = f(*x)
            if isinstance(r, mpmath.mpc):
                raise NoValue
            return r
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            raise NoValue

    def fnF(self, n, x):
        import cmath
        try:
            if n in ('csqrt_re', 'csqrt_im'):
                c = cmath.sqrt(complex(*x))
                return c.real if n.endswith('re') else c.imag
            if n == 'cabs':
                return math.hypot(*x)
            if n == 'fabs':
                return abs(x[0])
            if n == 'f32':
                return struct.unpack('f', struct.pack('f', x[0]))[0]
            f = getattr(math, n, None)
            if f is None:
                raise NoValue(n)
            return f(*x)
        except ValueError:
            return NAN
        except OverflowError:
            return math.inf


def close(x, y, tol):
    if x == y:
        return True
    try:
        d = abs(x - y)
        return d <= tol * (1 + abs(x) + abs(y))
    except TypeError:
        return False


def pick(rnd, sort):
    if sort == 'i':
        return rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 16])
    if sort == 'b':
        return rnd.random() < 0.5
    c = rnd.random()
    if c < 0.55:
        return rnd.uniform(-1, 1)
    if c < 0.75:
        return rnd.uniform(0.01, 0.49)
    if c < 0.95:
        return rnd.uniform(-20, 20)
    return rnd.choice([0.0, 1.0, -1.0, 0.5, 0.25, 2.0])


def syms(ts):
    out = {}
    for t in ts:
        for x in atoms_of(t, lambda y: y.op in ('ivar', 'fvar', 'bvar')):
            out[x.args[0]] = {'ivar': 'i', 'fvar': 'f', 'bvar': 'b'}[x.op]
            if x.op == 'ivar' and x.args[1]:
                out[x.args[0]] = 'n'
        for x in atoms_of(t, lambda y: y.op == 'rec'):
            ka, comps = tm.RECS.get(x.args[0], (None, {}))
            for i, p in comps.values():
                for z in (i, p):
                    if not isinstance(z, T):
                        continue
                    for q in atoms_of(z, lambda y: y.op in ('ivar', 'fvar', 'bvar')):
                        if q is not ka:
                            out.setdefault(q.args[0], {'ivar': 'i', 'fvar': 'f', 'bvar': 'b'}[q.op])
    return out


def zmodel(pc, extra=()):
    """integer/boolean part of a model of pc"""
    import z3
    smt._chk()
    s = z3.Solver()
    s.set('timeout', 3000)
    cs = list(pc) + list(extra)
    for c in cs:
        s.add(smt.Bo(c))
    for a in smt._sides(cs):
        s.add(a)
    if s.check() != z3.sat:
        return None
    return s


def samples(pc, ts, rnd, n=20, tries=400, pools=None):
    """environments satisfying pc"""
    import z3
    sy = syms(list(pc) + list(ts))
    ivs = [x for x in sy if sy[x] in ('i', 'n')]
    ints = [c for c in pc if not atoms_of(c, lambda y: y.sort == 'f')]
    s = zmodel(ints)
    got = 0
    models = []
    if s is not None and ivs:
        for _ in range(12):
            if s.check() != z3.sat:
                break
            m = s.model()
            d = {}
            for x in ivs:
                v = m.eval(z3.Int(x), model_completion=True)
                d[x] = v.as_long()
            models.append(d)
            s.add(z3.Or([z3.Int(x) != d[x] for x in ivs]))
    reals = real_models(pc, sy, rnd) if mode() == 'R' else fp_models(pc, sy, rnd)
    eqs = []
    for c in pc:
        if c.op == 'feq':
            for x, y in (c.args, c.args[::-1]):
                if x.op == 'fvar':
                    eqs.append((x.args[0], y))
                elif x.op == 'sel':
                    eqs.append((x, y))
    for t in range(tries):
        e = Env(rnd)
        if models:
            e.v.update(rnd.choice(models))
        if reals and rnd.random() < 0.6:
            m = rnd.choice(reals)
            e.v.update(m[0])
            e.arr_pre = m[1]
        for x, k in sy.items():
            if k == 'n' and x not in e.v:
                e.v[x] = rnd.choice([0, 1, 2, 3, 4, 5, 7, 8])
            if pools and x in pools:
                e.v[x] = pools[x](rnd)
        try:
            for x, y in eqs:
                if isinstance(x, str):
                    e.v[x] = e.ev(y)
                else:
                    e.arr[(x.args[0], e.ev(x.args[1]))] = e.ev(y)
                e.memo.clear()
            if all(e.ev(c) for c in pc):
                yield e
                got += 1
                if got >= n:
                    return
        except NoValue:
            continue
        except (OverflowError, ValueError, ZeroDivisionError, RecursionError, TypeError):
            continue


def real_models(pc, sy, rnd, n=8):
    """values for the real variables from models of the (linear, opaque) path condition"""
    import z3
    if not pc:
        return []
    s = zmodel(pc)
    out = []
    if s is None:
        return out
    vs = set()
    for c in pc:
        vs.update(atoms_of(c, lambda y: y.op == 'fvar'))
    vs = sorted(vs, key=lambda x: x.id)
    ivs = [x for x in sy if sy[x] in ('i', 'n')]
    for k in range(n):
        s.push()
        for x in vs:
            lo = rnd.choice([-1e3, -30, -3, -1, 0, 0.01, 0.1, 1, 10, 1e6])
            hi = lo + abs(lo) * 0.5 + 0.3
            z = smt.fp(x)
            s.push()
            s.add(z > z3.RealVal(str(lo)), z < z3.RealVal(str(hi)))
            if s.check() != z3.sat:
                s.pop()
                # keep the balance of push and pop
                s.push()
        if s.check() == z3.sat:
            m = s.model()
            d = {}
            for x in vs:
                v = m.eval(smt.fp(x), model_completion=True)
                try:
                    d[x.args[0]] = mpf(v.numerator_as_long()) / v.denominator_as_long()
                except AttributeError:
                    pass
            for x in ivs:
                d[x] = m.eval(z3.Int(x), model_completion=True).as_long()
            out.append((d, {}))
        for x in vs:
            s.pop()
        s.pop()
    return out


def fp_models(pc, sy, rnd, n=6):
    import z3
    if not pc:
        return []
    s = zmodel(pc)
    out = []
    if s is None:
        return out
    vs = set()
    for c in pc:
        vs.update(atoms_of(c, lambda y: y.op == 'fvar'))
    ivs = [x for x in sy if sy[x] in ('i', 'n')]
    for k in range(n):
        if s.check() != z3.sat:
            break
        m = s.model()
        d = {}
        blk = []
        for x in vs:
            v = m.eval(smt.fp(x), model_completion=True)
            d[x.args[0]] = fpval(v)
            blk.append(z3.Not(smt.fp(x) == v))
        for x in ivs:
            d[x] = m.eval(z3.Int(x), model_completion=True).as_long()
        out.append((d, {}))
        if not blk:
            break
        s.add(z3.Or(blk))
    return out


def fpval(v):
    import z3
    if v.isNaN():
        return NAN
    if v.isInf():
        return -math.inf if v.isNegative() else math.inf
    if v.isZero():
        return -0.0 if v.isNegative() else 0.0
    b = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    return struct.unpack('>d', struct.pack('>Q', b))[0]


def refute_eq(pc, a, b, rnd, n=20, pools=None):
    """a point where a and b differ, as text"""
    for e in samples(pc, [a, b], rnd, n, pools=pools):
        try:
            x, y = e.ev(a), e.ev(b)
        except NoValue:
            continue
        except (OverflowError, ValueError, ZeroDivisionError, RecursionError, TypeError):
            continue
        if mode() == 'R':
            if not close(x, y, mpf('1e-12')):
                return describe(e, (('code', x), ('specification', y)))
        else:
            if not (x == y or (x != x and y != y)):
                return describe(e, (('code', x), ('specification', y)))
    return None


def refute(pc, goal, rnd, n=40, pools=None):
    for e in samples(pc, [goal], rnd, n, pools=pools):
        try:
            if not e.ev(goal):
                # stay away from the boundary
                return describe(e, ())
        except NoValue:
            continue
        except (OverflowError, ValueError, ZeroDivisionError, RecursionError, TypeError):
            continue
    return None


def describe(e, more):
    d = {k: (str(v) if not isinstance(v, (int, bool)) else v) for k, v in e.v.items()}
    for (a, i), v in e.arr.items():
        d['%s[%s]' % (a, i)] = str(v)
    for k, v in more:
        d['=' + k] = mpmath.nstr(v, 17) if isinstance(v, mpf) else repr(v)
    return d
