"""Hash-consed terms.

Sorts: 'i' mathematical integers (canonical linear forms), 'b' booleans,
'f' floating point values.  In mode R an 'f' term denotes a real number (plus
the marker +infinity), in mode F an IEEE double whose arithmetic is opaque."""
from fractions import Fraction
import math, struct

MODE = ['R']


def mode():
    return MODE[0]


_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'hash', '_fv')

    def __repr__(self):
        return show(self)

    # arithmetic on float terms (specification convenience)
    def __add__(self, o):
        return fadd(self, fl(o)) if self.sort == 'f' else iadd(self, il(o))

    __radd__ = lambda self, o: (fadd(fl(o), self) if self.sort == 'f' else iadd(il(o), self))

    def __sub__(self, o):
        return fsub(self, fl(o)) if self.sort == 'f' else isub(self, il(o))

    def __rsub__(self, o):
        return fsub(fl(o), self) if self.sort == 'f' else isub(il(o), self)

    def __mul__(self, o):
        return fmul(self, fl(o)) if self.sort == 'f' else imul(self, il(o))

    __rmul__ = lambda self, o: (fmul(fl(o), self) if self.sort == 'f' else imul(il(o), self))

    def __truediv__(self, o):
        return fdiv(self, fl(o))

    def __rtruediv__(self, o):
        return fdiv(fl(o), self)

    def __neg__(self):
        return fneg(self) if self.sort == 'f' else isub(IC(0), self)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        _cnt[0] += 1
        t.id = _cnt[0]
        t._fv = None
        _tab[key] = t
    return t


# ------------------------------------------------------------------ integers
# lin: args = (const, ((atom, coef), ...)) sorted by atom id

def IC(n):
    return mk('lin', (int(n), ()), 'i')


def il(o):
    return o if isinstance(o, T) else IC(o)


def iatom(t):
    return mk('lin', (0, ((t, 1),)), 'i')


def ivar(name, nonneg=False):
    return iatom(mk('ivar', (name, nonneg), 'i'))


def isconst(t):
    return t.op == 'lin' and not t.args[1]


def ival(t):
    return t.args[0]


def _lin(c, d):
    items = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id))
    return mk('lin', (c, items), 'i')


def iadd(a, b, kb=1):
    d = dict(a.args[1])
    for x, k in b.args[1]:
        d[x] = d.get(x, 0) + k * kb
    return _lin(a.args[0] + kb * b.args[0], d)


def isub(a, b):
    return iadd(a, b, -1)


def imul(a, b):
    if isconst(a):
        a, b = b, a
    if isconst(b):
        k = ival(b)
        return _lin(a.args[0] * k, {x: c * k for x, c in a.args[1]})
    if a.id > b.id:
        a, b = b, a
    return iatom(mk('imul', (a, b), 'i'))


def atom_nonneg(x):
    if x.op == 'ivar':
        return x.args[1]
    if x.op == 'iabs':
        return True
    if x.op in ('idiv',):
        return nonneg(x.args[0]) and isconst(x.args[1]) and ival(x.args[1]) > 0
    if x.op in ('irem',):
        return nonneg(x.args[0])
    if x.op == 'ite':
        return nonneg(x.args[1]) and nonneg(x.args[2])
    return False


def nonneg(t):
    return t.args[0] >= 0 and all(c >= 0 and atom_nonneg(a) for a, c in t.args[1])


def idiv(a, b):
    """truncating division"""
    if isconst(b) and ival(b) != 0:
        k = ival(b)
        if isconst(a):
            q = abs(ival(a)) // abs(k)
            return IC(q if (ival(a) >= 0) == (k > 0) else -q)
        if ival(a) % k == 0 and all(c % k == 0 for _, c in a.args[1]):
            return _lin(ival(a) // k, {x: c // k for x, c in a.args[1]})
        if k > 0 and nonneg(a) and all(c % k == 0 for _, c in a.args[1]):
            return _lin(ival(a) // k, {x: c // k for x, c in a.args[1]})
    return iatom(mk('idiv', (a, b), 'i'))


def by_choice(t, f, d=0):
    """f of an integer which is one of a few constants, each under its condition (None if t is anything else)"""
    if isconst(t):
        return f(t)
    if d > 3 or len(t.args[1]) != 1 or t.args[1][0][0].op != 'ite':
        return None
    x, k = t.args[1][0]
    c, a, b = x.args
    a, b = (by_choice(iadd(imul(y, IC(k)), IC(t.args[0])), f, d + 1) for y in (a, b))
    return None if a is None or b is None else ite(c, a, b)


def irem(a, b):
    if isconst(b) and ival(b) != 0:
        k = ival(b)
        if isconst(a):
            r = abs(ival(a)) % abs(k)
            return IC(r if ival(a) >= 0 else -r)
        if all(c % k == 0 for _, c in a.args[1]) and (ival(a) % k == 0 or nonneg(a)):
            return IC(ival(a) % k)
        r = None if isconst(a) else by_choice(a, lambda x: irem(x, b))
        if r is not None:
            return r
    return iatom(mk('irem', (a, b), 'i'))


def iand(a, b):
    if isconst(a):
        a, b = b, a
    if isconst(b):
        k = ival(b)
        if isconst(a):
            return IC(ival(a) & k)
        if k == 0:
            return IC(0)
        if k > 0 and (k & (k + 1)) == 0:  # low bits mask: mathematical mod
            m = k + 1
            if all(c % m == 0 for _, c in a.args[1]):
                return IC(ival(a) % m)
            r = by_choice(a, lambda x: IC(ival(x) % m))
            if r is not None:
                return r
            return iatom(mk('imod', (a, IC(m)), 'i'))
    return iatom(mk('iand', (a, b), 'i'))


# ------------------------------------------------------------------ booleans
TRUE = mk('true', (), 'b')
FALSE = mk('false', (), 'b')


def B(x):
    return TRUE if x else FALSE


def bvar(name):
    return mk('bvar', (name,), 'b')


def nt(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ile0':  # not (t<=0)  <=>  -t+1 <= 0
        return ile0(isub(IC(1), a.args[0]))
    return mk('not', (a,), 'b')


def an(*xs):
    out = []
    for x in xs:
        for y in (x.args if x.op == 'and' else (x,)):
            if y is FALSE:
                return FALSE
            if y is not TRUE and y not in out:
                out.append(y)
    for y in out:
        if nt(y) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(sorted(out, key=lambda t: t.id)), 'b')


def orr(*xs):
    return nt_and([nt(x) for x in xs])


def nt_and(xs):
    r = an(*xs)
    if r.op == 'and':
        return mk('not', (r,), 'b')
    return nt(r)


def implies(a, b):
    return orr(nt(a), b)


def ile0(t):
    if isconst(t):
        return B(ival(t) <= 0)
    if t.args[0] >= 1 and nonneg(t):
        return FALSE
    m = imul(t, IC(-1))
    if nonneg(m):
        return TRUE
    r = by_choice(t, lambda x: B(ival(x) <= 0))
    if r is not None:
        return r
    g = 0
    for _, c in t.args[1]:
        g = math.gcd(g, abs(c))
    if g > 1:  # g*u + c <= 0  <=>  u + ceil(c/g) <= 0
        t = _lin(-((-t.args[0]) // g), {x: c // g for x, c in t.args[1]})
    return mk('ile0', (t,), 'b')


def ile(a, b):
    return ile0(isub(il(a), il(b)))


def ilt(a, b):
    return ile0(iadd(isub(il(a), il(b)), IC(1)))


def ieq(a, b):
    t = isub(il(a), il(b))
    if isconst(t):
        return B(ival(t) == 0)
    if t.args[1][0][1] < 0:
        t = imul(t, IC(-1))
    if t.args[0] >= 1 and nonneg(t):
        return FALSE
    m = imul(t, IC(-1))
    if m.args[0] >= 1 and nonneg(m):
        return FALSE
    r = by_choice(t, lambda x: B(ival(x) == 0))
    if r is not None:
        return r
    g = 0
    for _, c in t.args[1]:
        g = math.gcd(g, abs(c))
    if t.args[0] % g:
        return FALSE
    if g > 1:
        t = _lin(t.args[0] // g, {x: c // g for x, c in t.args[1]})
    return mk('ieq0', (t,), 'b')


def ine(a, b):
    return nt(ieq(a, b))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == 'b':
        return orr(an(c, a), an(nt(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    t = mk('ite', (c, a, b), a.sort)
    return iatom(t) if a.sort == 'i' else t


# ------------------------------------------------------------------ floats
PI = mk('pi', (), 'f')
LN2 = mk('ln2', (), 'f')
LN10 = mk('ln10', (), 'f')
INF = mk('inf', (), 'f')
# mode O: every floating point value is this one, every comparison of them may go either way
ANY = mk('fvar', ('any',), 'f')
_coin = [0]


def opaque():
    return MODE[0] == 'O'


def coin():
    _coin[0] += 1
    return bvar('?%d' % _coin[0])




def d2h(x):
    return struct.unpack('>Q', struct.pack('>d', x))[0]


def FC(x):
    """float constant: Fraction/int in mode R, python float in mode F"""
    if mode() == 'R':
        return mk('fc', (Fraction(x),), 'f')
    if opaque():
        return ANY
    return mk('fc', (d2h(float(x)), 'F'), 'f')


def fl(o):
    if isinstance(o, T):
        return o
    return FC(o)


def fval(t):
    """value of an fc term"""
    if isinstance(t.args[0], Fraction):
        return t.args[0]
    return struct.unpack('>d', struct.pack('>Q', t.args[0]))[0]


_bases = None


def literal(x):
    """term for the double literal x (a python float)"""
    if opaque():
        return ANY
    if x != x:
        return mk('nanc', (), 'f')
    if mode() == 'F':
        return FC(x)
    if math.isinf(x):
        return INF if x > 0 else fneg(INF)
    sgn = 1
    v = x
    if v < 0:
        sgn, v = -1, -v
    if v == 0:
        return FC(0)
    fr = Fraction(repr(v))
    s = repr(v).replace('.', '').replace('-', '').lstrip('0').split('e')[0].rstrip('0')
    r = None
    if len(s) >= 14:
        for base, val in ((PI, math.pi), (LN10, math.log(10)), (LN2, math.log(2))):
            q = Fraction(v / val).limit_denominator(48)
            if q and abs(float(q) * val - v) <= 2 * math.ulp(v) and q.numerator <= 48:
                r = fmul(FC(q), base)
                break
        if r is None and abs(math.pi - v) < 1e-2:
            d = Fraction(repr(float('%.3g' % (math.pi - v))))
            if abs((math.pi - float(d)) - v) <= 4 * math.ulp(v):
                r = fsub(PI, FC(d))
    if r is None:
        r = FC(fr)
    return r if sgn > 0 else fneg(r)


def isfc(t):
    return t.op == 'fc'


def fvar(name):
    if MODE[0] == 'O':
        return ANY
    return mk('fvar', (name,), 'f')


def _fold(op, a, b):
    x, y = fval(a), fval(b)
    try:
        if op == 'fadd':
            return FC(x + y)
        if op == 'fsub':
            return FC(x - y)
        if op == 'fmul':
            return FC(x * y)
        if op == 'fdiv' and y != 0:
            return FC(x / y)
    except OverflowError:
        pass
    return None


def _bin(op, a, b):
    if MODE[0] == 'O':
        return ANY
    if isfc(a) and isfc(b):
        r = _fold(op, a, b)
        if r is not None:
            return r
    if mode() == 'R':
        za = isfc(a) and fval(a) == 0
        zb = isfc(b) and fval(b) == 0
        oa = isfc(a) and fval(a) == 1
        ob = isfc(b) and fval(b) == 1
        if op == 'fadd':
            if za:
                return b
            if zb:
                return a
        elif op == 'fsub':
            if zb:
                return a
            if za:
                return fneg(b)
            if a is b:
                return FC(0)
        elif op == 'fmul':
            if za or zb:
                return FC(0)
            if oa:
                return b
            if ob:
                return a
        elif op == 'fdiv':
            if ob:
                return a
            if za:
                return a
            if b.op == 'fneg':
                return fneg(_bin('fdiv', a, b.args[0]))
            if a.op == 'fneg':
                return fneg(_bin('fdiv', a.args[0], b))
        if op == 'fmul':
            if b.op == 'fneg':
                return fneg(_bin('fmul', a, b.args[0]))
            if a.op == 'fneg':
                return fneg(_bin('fmul', a.args[0], b))
    return mk(op, (a, b), 'f')


def fadd(a, b):
    return _bin('fadd', a, b)


def fsub(a, b):
    return _bin('fsub', a, b)


def fmul(a, b):
    return _bin('fmul', a, b)


def fdiv(a, b):
    return _bin('fdiv', a, b)


def fneg(a):
    if MODE[0] == 'O':
        return ANY
    if isfc(a):
        return FC(-fval(a))
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', (a,), 'f')


def fn(name, *args):
    """library function application"""
    if MODE[0] == 'O':
        return ANY
    return mk('fn', (name,) + tuple(args), 'f')


def sin(x):
    return FC(0) if isfc(x) and fval(x) == 0 and mode() == 'R' else fn('sin', x)


def cos(x):
    return FC(1) if isfc(x) and fval(x) == 0 and mode() == 'R' else fn('cos', x)


def sqrt(x):
    return fn('sqrt', x)


def i2f(t):
    """integer to floating point"""
    if MODE[0] == 'O':
        return ANY
    if isconst(t):
        return FC(ival(t))
    if mode() == 'R':
        # distribute, so that the real normaliser sees the linear form
        r = FC(ival(t)) if ival(t) else None
        for a, c in t.args[1]:
            x = mk('i2f', (a,), 'f')
            if c != 1:
                x = fmul(FC(c), x)
            r = x if r is None else fadd(r, x)
        return r
    return mk('i2f', (t,), 'f')


def isinfm(t):
    """mode R: is this the +infinity marker?"""
    if t is INF:
        return TRUE
    if t.op in ('fvar', 'sel'):
        if isinstance(t.args[0], str) and t.args[0].startswith('fin:'):
            return FALSE
        return mk('isinf', (t,), 'b')
    if t.op == 'ite':
        return orr(an(t.args[0], isinfm(t.args[1])), an(nt(t.args[0]), isinfm(t.args[2])))
    return FALSE


def _isinfc(t):
    return t is INF or (t.op == 'fneg' and t.args[0] is INF)


def fcmp(kind, a, b):
    """ordered comparison: 'lt' 'le' 'eq'"""
    if MODE[0] == 'O':
        return coin()
    if isfc(a) and isfc(b):
        x, y = fval(a), fval(b)
        return B({'lt': x < y, 'le': x <= y, 'eq': x == y}[kind])
    if mode() == 'R':
        if a is b:
            return B(kind != 'lt')
        if kind == 'eq' and (a is INF or b is INF):
            return isinfm(b if a is INF else a)
        if _isinfc(a) or _isinfc(b):
            def s(t):
                return 1 if t is INF else (-1 if _isinfc(t) else 0)
            x, y = s(a), s(b)
            if kind == 'eq':
                return B(x == y)
            return B(x < y if kind == 'lt' else x <= y)
    if kind == 'eq' and a.id > b.id:
        a, b = b, a
    return mk('f' + kind, (a, b), 'b')


def flt(a, b):
    return fcmp('lt', fl(a), fl(b))


def fle(a, b):
    return fcmp('le', fl(a), fl(b))


def feq(a, b):
    return fcmp('eq', fl(a), fl(b))


def fisnan(a):
    if MODE[0] == 'O':
        return coin()
    if mode() == 'R':
        return FALSE
    if isfc(a):
        return B(fval(a) != fval(a))
    if a.op == 'i2f':
        return FALSE
    return mk('fnan', (a,), 'b')


def sel(name, idx, sort='f'):
    """element of an unspecified input array"""
    if sort == 'f':
        if MODE[0] == 'O':
            return ANY
        return mk('sel', (name, idx), 'f')
    if sort == 'b':
        return mk('selb', (name, idx), 'b')
    return iatom(mk('seli', (name, idx), 'i'))


# ------------------------------------------------------------------ traversal
def children(t):
    if t.op == 'lin':
        return [a for a, _ in t.args[1]]
    return [a for a in t.args if isinstance(a, T)]


def rebuild(t, f):
    """apply f to the children and rebuild with the smart constructors"""
    o = t.op
    if o == 'lin':
        r = IC(t.args[0])
        ch = False
        for a, c in t.args[1]:
            na = f(a)
            if na.op != 'lin':
                na = iatom(na)
            r = iadd(r, na, c)
        return r
    if not t.args or o in ('ivar', 'fvar', 'bvar', 'fc'):
        return t
    ar = [f(a) if isinstance(a, T) else a for a in t.args]
    if all(x is y for x, y in zip(ar, t.args)):
        return t
    if o in ('imul',):
        return imul(*ar)
    if o == 'idiv':
        return idiv(*ar)
    if o == 'irem':
        return irem(*ar)
    if o == 'imod':
        return iand(ar[0], isub(ar[1], IC(1)))
    if o == 'iand':
        return iand(*ar)
    if o == 'not':
        return nt(ar[0])
    if o == 'and':
        return an(*ar)
    if o == 'ile0':
        return ile0(ar[0])
    if o == 'ieq0':
        return ieq(ar[0], IC(0))
    if o == 'ite':
        return ite(*ar)
    if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
        return _bin(o, *ar)
    if o == 'fneg':
        return fneg(ar[0])
    if o in ('flt', 'fle', 'feq'):
        return fcmp(o[1:], *ar)
    if o == 'fnan':
        return fisnan(ar[0])
    if o == 'isinf':
        return isinfm(ar[0])
    if o == 'i2f':
        a = ar[0]
        return i2f(a if a.op == 'lin' else iatom(a))
    return mk(o, tuple(ar), t.sort)


def subst(t, m):
    """simultaneous substitution of (interned) subterms; m maps T -> T.
    For integer atoms the replacement is a lin term."""
    memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is None:
            if x.op == 'rec':
                r = mk('rec', (_recsubst(x.args[0], m), x.args[1], go(x.args[2])), 'f')
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


# recursive functions of an iteration counter: id -> (counter atom, {component: (init, step)})
RECS = {}
_recmemo = {}


def rec_free(rid):
    ka, comps = RECS.get(rid, (None, {}))
    s = set()
    for i, p in comps.values():
        for x in (i, p):
            if isinstance(x, T):
                for y in atoms_of(x, lambda z: z.op in ('ivar', 'fvar', 'bvar', 'sel', 'seli') or z.op == 'rec' and z.args[0] != rid):
                    if y is not ka:
                        s.add(y)
    return s


def _recsubst(rid, m):
    """the recursion after substituting its parameters"""
    ka, comps = RECS.get(rid, (None, {}))
    m2 = {a: b for a, b in m.items() if a is not ka}
    if not m2 or not comps:
        return rid
    key = (rid, frozenset(m2.items()))
    r = _recmemo.get(key)
    if r is not None:
        return r
    fr = rec_free(rid)
    if not any(a in fr or a.op not in ('ivar', 'fvar', 'bvar') for a in m2):
        _recmemo[key] = rid
        return rid
    nid = '%s~%d' % (rid, len(RECS))
    _recmemo[key] = nid
    ren = lambda t: _renrec(subst(t, m2), rid, nid) if isinstance(t, T) else t
    RECS[nid] = (ka, {c: (ren(i), ren(p)) for c, (i, p) in comps.items()})
    return nid


def _renrec(t, a, b):
    m = {}
    for x in atoms_of(t, lambda z: z.op == 'rec' and z.args[0] == a):
        m[x] = mk('rec', (b,) + x.args[1:], 'f')
    return subst(t, m) if m else t


def rec_unfold(x):
    """rec(k+1) -> its step at k"""
    rid, comp, k = x.args
    ka, comps = RECS[rid]
    return subst(comps[comp][1], {ka: isub(k, IC(1))})


def rec_init(x):
    return RECS[x.args[0]][1][x.args[1]][0]


def atoms_of(t, pred):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        st.extend(children(x))
    return out


def free(t):
    """set of free symbols (variables and input array names)"""
    if t._fv is None:
        s = set()
        if t.op in ('ivar', 'fvar', 'bvar'):
            s.add(t.args[0])
        if t.op in ('sel', 'seli', 'selb', 'rec'):
            s.add(t.args[0])
        for c in children(t):
            s |= free(c)
        t._fv = frozenset(s)
    return t._fv


def show(t, d=0):
    o = t.op
    if d > 12:
        return '...'
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    if o == 'lin':
        p = ['%s%s' % ('' if c == 1 else '%d*' % c, s(a)) for a, c in t.args[1]]
        if t.args[0] or not p:
            p.append(str(t.args[0]))
        return '+'.join(p) if len(p) == 1 else '(' + '+'.join(p) + ')'
    if o == 'fc':
        return str(fval(t))
    if o in ('ivar', 'fvar', 'bvar'):
        return str(t.args[0])
    if o in ('sel', 'seli', 'selb'):
        return '%s[%s]' % (t.args[0], s(t.args[1]))
    if o == 'fn':
        return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:]))
    if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'flt', 'fle', 'feq'):
        sym = dict(fadd='+', fsub='-', fmul='*', fdiv='/', flt='<', fle='<=', feq='==')[o]
        return '(%s%s%s)' % (s(t.args[0]), sym, s(t.args[1]))
    if o == 'fneg':
        return '-' + s(t.args[0])
    if o == 'i2f':
        return 'real(%s)' % s(t.args[0])
    if o == 'ile0':
        return s(t.args[0]) + '<=0'
    if o == 'ieq0':
        return s(t.args[0]) + '==0'
    if not t.args:
        return o
    return '%s(%s)' % (o, ', '.join(s(a) for a in t.args))
