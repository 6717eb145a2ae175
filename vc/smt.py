"""Light-weight solver interface used while exploring paths: integers are
translated exactly (truncating division), real/float arithmetic terms are
opaque unless linear.  Everything here is only used to prune infeasible paths
and to prove integer facts, so incompleteness is harmless."""
import time
import z3
from term import *
import term as tm

stats = {'queries': 0, 'time': 0.0, 'hits': 0}
FP = z3.Float64()
_zi, _zb, _zf = {}, {}, {}
_cache = {}
_side = {}      # term -> axiom about an introduced integer atom
_modes = {}


def reset():
    for d in (_zi, _zb, _zf, _cache, _side):
        d.clear()


def _chk():
    if _modes.get('m') != mode():
        reset()
        _modes['m'] = mode()


def I(t):
    """z3 Int expression of an integer term or atom"""
    r = _zi.get(t)
    if r is not None:
        return r
    o = t.op
    if o == 'lin':
        r = z3.IntVal(t.args[0])
        for a, c in t.args[1]:
            r = r + (I(a) if c == 1 else c * I(a))
    elif o == 'ivar':
        r = z3.Int(t.args[0])
        if t.args[1]:
            _side[t] = r >= 0
    elif o == 'imul':
        r = I(t.args[0]) * I(t.args[1])
    elif o in ('idiv', 'irem', 'imod', 'ifloordiv'):
        a, b = I(t.args[0]), I(t.args[1])
        q, m = z3.Int('q%d' % t.id), z3.Int('m%d' % t.id)
        if tm.isconst(t.args[1]) and tm.ival(t.args[1]) > 0:
            k = tm.ival(t.args[1])
            if o in ('imod', 'ifloordiv') or nonneg(t.args[0]):
                _side[t] = z3.And(a == k * q + m, m >= 0, m < k)
            else:
                _side[t] = z3.And(a == k * q + m, z3.Or(z3.And(a >= 0, m >= 0, m < k), z3.And(a < 0, m <= 0, m > -k)))
        else:
            _side[t] = z3.Implies(b != 0, a == b * q + m)
        r = q if o in ('idiv', 'ifloordiv') else m
    elif o == 'ite':
        r = z3.If(Bo(t.args[0]), I(t.args[1]), I(t.args[2]))
    elif o == 'iabs':
        a = I(t.args[0])
        r = z3.If(a >= 0, a, -a)
    else:
        r = z3.Int('t%d' % t.id)
    _zi[t] = r
    return r


def fp(t):
    r = _zf.get(t)
    if r is not None:
        return r
    if mode() == 'F':
        if t.op == 'fc':
            r = z3.fpBVToFP(z3.BitVecVal(t.args[0], 64), FP)
        elif t.op == 'nanc':
            r = z3.fpNaN(FP)
        elif t.op == 'fneg':
            r = z3.fpNeg(fp(t.args[0]))
        elif t.op == 'fn' and t.args[0] == 'fabs':
            r = z3.fpAbs(fp(t.args[1]))
        elif t.op == 'ite':
            r = z3.If(Bo(t.args[0]), fp(t.args[1]), fp(t.args[2]))
        else:
            r = z3.FP('f%d' % t.id, FP)
    else:
        o = t.op
        if o == 'fc':
            v = fval(t)
            r = z3.RealVal('%d/%d' % (v.numerator, v.denominator))
        elif o == 'fadd':
            r = fp(t.args[0]) + fp(t.args[1])
        elif o == 'fsub':
            r = fp(t.args[0]) - fp(t.args[1])
        elif o == 'fneg':
            r = -fp(t.args[0])
        elif o == 'fmul' and (t.args[0].op == 'fc' or t.args[1].op == 'fc'):
            r = fp(t.args[0]) * fp(t.args[1])
        elif o == 'fdiv' and t.args[1].op == 'fc':
            r = fp(t.args[0]) / fp(t.args[1])
        elif o == 'ite':
            r = z3.If(Bo(t.args[0]), fp(t.args[1]), fp(t.args[2]))
        elif o == 'i2f':
            r = z3.ToReal(I(t.args[0]))
        else:
            r = z3.Real('f%d' % t.id)
            if o == 'pi':
                _side[t] = z3.And(r > z3.RealVal('3.14159265'), r < z3.RealVal('3.14159266'))
            elif o in ('ln2', 'ln10'):
                _side[t] = r > 0
            elif o == 'fn' and t.args[0] in ('sin', 'cos'):
                _side[t] = z3.And(r >= -1, r <= 1)
            elif o == 'fn' and t.args[0] in ('sqrt', 'fabs', 'cabs'):
                _side[t] = r >= 0
            elif o == 'fn' and t.args[0] in ('exp', 'cosh'):
                _side[t] = r > 0
    _zf[t] = r
    return r


def Bo(t):
    r = _zb.get(t)
    if r is not None:
        return r
    o = t.op
    if o == 'true':
        r = z3.BoolVal(True)
    elif o == 'false':
        r = z3.BoolVal(False)
    elif o == 'bvar':
        r = z3.Bool(t.args[0])
    elif o == 'not':
        r = z3.Not(Bo(t.args[0]))
    elif o == 'and':
        r = z3.And([Bo(x) for x in t.args])
    elif o == 'ile0':
        r = I(t.args[0]) <= 0
    elif o == 'ieq0':
        r = I(t.args[0]) == 0
    elif o in ('flt', 'fle', 'feq'):
        a, b = fp(t.args[0]), fp(t.args[1])
        if mode() == 'F':
            r = {'flt': z3.fpLT, 'fle': z3.fpLEQ, 'feq': z3.fpEQ}[o](a, b)
        else:
            r = {'flt': lambda: a < b, 'fle': lambda: a <= b, 'feq': lambda: a == b}[o]()
    elif o == 'fnan':
        r = z3.fpIsNaN(fp(t.args[0]))
    else:
        r = z3.Bool('b%d' % t.id)
    _zb[t] = r
    return r


def _sides(ts):
    """axioms of the atoms occurring in ts"""
    out, seen, st = [], set(), list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in _side:
            out.append(_side[x])
        st.extend(children(x))
    return out


def relevant(pc, c):
    """conjuncts sharing symbols with c (transitively)"""
    fs = set(free(c))
    rest = [(p, free(p)) for p in pc]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for p, f in rest:
            if not f or f & fs:
                fs |= f
                out.append(p)
                ch = True
            else:
                nr.append((p, f))
        rest = nr
    return out


def check(cs, timeout=2000):
    """'sat' / 'unsat' / 'unknown' for the conjunction of terms"""
    _chk()
    key = frozenset(cs)
    r = _cache.get(key)
    if r is not None:
        stats['hits'] += 1
        return r
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in cs:
        s.add(Bo(c))
    for a in _sides(cs):
        s.add(a)
    r = str(s.check())
    stats['queries'] += 1
    stats['time'] += time.time() - t0
    _cache[key] = r
    return r


def entails(pc, c, timeout=2000):
    if c is TRUE or c in pc:
        return True
    if mode() == 'R' and c.op in ('feq', 'not', 'flt', 'fle') and not pc:
        return False
    return check(relevant(pc, c) + [nt(c)], timeout) == 'unsat'


def feasible(pc, timeout=2000):
    return check(list(pc), timeout) != 'unsat'


def enum(pc, t, lo, hi, maxn):
    """all feasible values of an integer term within [lo,hi]; None if it may lie outside or has too many values"""
    _chk()
    inr = an(ile(IC(lo), t), ile(t, IC(hi)))
    if not entails(pc, inr):
        return None
    s = z3.Solver()
    s.set('timeout', 3000)
    cs = relevant(pc, inr) + [inr]
    for c in cs:
        s.add(Bo(c))
    e = I(t)
    for a in _sides(cs + [t]):
        s.add(a)
    vals = []
    while True:
        r = s.check()
        if r == z3.unsat:
            return sorted(vals)
        if r != z3.sat or len(vals) >= maxn:
            return None
        v = s.model().eval(e, model_completion=True).as_long()
        vals.append(v)
        s.add(e != v)


def ieee_check(cs, timeout=60000):
    """mode F, with +, -, *, / interpreted as the IEEE 754 double operations (round to nearest)"""
    zf = {}
    rm = z3.RNE()

    def f(t):
        r = zf.get(t)
        if r is None:
            o = t.op
            if o == 'fc':
                r = z3.fpBVToFP(z3.BitVecVal(t.args[0], 64), FP)
            elif o == 'nanc':
                r = z3.fpNaN(FP)
            elif o == 'fneg':
                r = z3.fpNeg(f(t.args[0]))
            elif o == 'fn' and t.args[0] == 'fabs':
                r = z3.fpAbs(f(t.args[1]))
            elif o == 'ite':
                r = z3.If(b(t.args[0]), f(t.args[1]), f(t.args[2]))
            elif o in ('fadd', 'fsub', 'fmul', 'fdiv'):
                r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[o](rm, f(t.args[0]), f(t.args[1]))
            else:
                r = z3.FP('e%d' % t.id, FP)
            zf[t] = r
        return r

    def b(t):
        o = t.op
        if o == 'not':
            return z3.Not(b(t.args[0]))
        if o == 'and':
            return z3.And([b(x) for x in t.args])
        if o in ('flt', 'fle', 'feq'):
            return {'flt': z3.fpLT, 'fle': z3.fpLEQ, 'feq': z3.fpEQ}[o](f(t.args[0]), f(t.args[1]))
        if o == 'fnan':
            return z3.fpIsNaN(f(t.args[0]))
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        return z3.Bool('g%d' % t.id)
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add([b(c) for c in cs])
    t0 = time.time()
    r = str(s.check())
    stats['time'] += time.time() - t0
    return r
