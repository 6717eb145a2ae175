"""Helpers of the property modules."""
from term import *
import term as tm
import ir, sym, smt, alg, harness, core
from sym import Unsupported, Ptr, Executor, State
from harness import SHORT, STATES, FAM, RBJ, SAMPLES

core_groups = {'core': harness.g_core}


def unusual():
    """numbers 7..64 in the headers: the templates are verified for the sizes around them as well, because a size at which an
    instance is built differently from the others is named by such a number"""
    import glob, os, re
    found = set()
    for f in sorted(glob.glob(os.path.join(ir.REPO, 'iir', '*.h'))):
        if os.path.basename(f) == 'RBJ.h':
            continue    # (no sizes)
        t = re.sub(r'//[^\n]*|/\*.*?\*/|"[^"\n]*"', ' ', open(f, errors='replace').read(), flags=re.S)
        for x in re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", t):
            v = int(x, 0) if x[:2] in ('0x', '0X') else int(x)
            if 7 <= v <= 64:
                found.add(v)
    return sorted(found)[:6]


def sizes(ck, quick, thorough, more=()):
    """sizes of the instances under verification"""
    return tuple(sorted(set(thorough if ck.thorough else quick) | set(more) | {n for v in unusual() for n in (v - 1, v, v + 1)}))


def mod(*names, **extra):
    g = {}
    for n in names:
        g[n] = {'core': harness.g_core, 'open': harness.g_open, 'cascade': harness.g_cascade}[n]()
    g.update(extra)
    return core.module(g)


def F(m, name):
    f = m.fns.get(name)
    if f is None:
        raise Unsupported('harness function %s is missing' % name)
    return f


def run(ex, name, args, st):
    return ex.call(F(ex.mod, name), args, st)


def one(ex, name, args, st):
    """the only outcome, which has to be a normal return"""
    o = run(ex, name, args, st)
    if len(o) != 1 or o[0].kind != 'ret':
        raise Unsupported('%s: expected one normal return, got %r' % (name, o[:4]))
    return o[0]


def size(ex, p):
    return ival(one(ex, p + '_size', [], State()).val)


def region(ex, st, p, name=None, inp=False):
    return ex.new_flat(st, name or p, size(ex, p), inp=inp)


def new(ex, st, p, name=None, args=()):
    """construct an object with the real constructor in an uninitialised region; returns (pointer, state)"""
    q = region(ex, st, p, name)
    o = one(ex, p + '_new', [q] + list(args), st)
    return q, o.st


COEF = ['a0', 'a1', 'a2', 'b0', 'b1', 'b2']


def fv(*names):
    return [fvar(n) for n in names]


def biquad(ex, st, name='s', normal=True):
    """a section with arbitrary coefficients: the members are written through the real constructor
    and then replaced by symbols; returns pointer and the dictionary of normalised coefficients"""
    m = ex.mod
    q = ex.new_flat(st, name, size(ex, 'bq'), inp=True)
    c = {}
    for k in COEF:
        off = ex.member('Iir::Biquad', 'm_' + k)
        v = fvar('%s.%s' % (name, k))
        ex.flat_store(st, q.reg, off, ir.Ty('double'), v)
        c[k] = v
    return q, c


def coefs(ex, st, p):
    """the running (normalised) coefficients of the section at p, read through the getters divided by a0"""
    r = {}
    for k in COEF:
        o = one(ex, 'bq_' + k.upper(), [p], st)
        r[k] = o.val
    return r


def raw(ex, st, p):
    """the stored coefficients of the section at p"""
    return {k: ex.load(st, p.plus(ex.member('Iir::Biquad', 'm_' + k)), ir.Ty('double')) for k in COEF}


def fresh_state(ex, st, S, name='d'):
    return new(ex, st, SHORT[S], name)


def any_state(ex, st, S, name='d'):
    """arbitrary delay lines"""
    return ex.new_flat(st, name, size(ex, SHORT[S]), inp=True)


def cells(st, reg, ex=None):
    """scalar contents of a flat region"""
    return {o: v for o, (v, z) in st.mem[reg].cells.items()}


def arbitrary(ex, st, q):
    """forget every constant the constructor wrote into region q; what remains are pointers and capacities"""
    fl = st.wr(q.reg)
    ex.regs[q.reg].inp = True
    for o, (v, z) in list(fl.cells.items()):
        if isinstance(v, Ptr) and v.reg is not None:
            continue
        if isinstance(v, T) and v.sort == 'i' and free(v):
            continue
        del fl.cells[o]
    fl.fills = [(0, ex.regs[q.reg].size, ('input', q.reg, 0))]


def kind_of(t, V):
    """'c' independent of the symbols V, 'l' homogeneous linear in them, None otherwise"""
    memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        if not (free(t) & V):
            r = 'c' if not (tm.isfc(t) and fval(t) == 0) else 'z'
        elif t.op == 'fvar':
            r = 'l'
        elif t.op in ('fadd', 'fsub'):
            a, b = go(t.args[0]), go(t.args[1])
            r = 'l' if a in ('l', 'z') and b in ('l', 'z') else None
        elif t.op == 'fneg':
            r = go(t.args[0])
        elif t.op == 'fmul':
            a, b = go(t.args[0]), go(t.args[1])
            r = 'l' if {a, b} <= {'l', 'c', 'z'} and (a, b) != ('l', 'l') else None
        elif t.op == 'fdiv':
            r = 'l' if go(t.args[0]) == 'l' and go(t.args[1]) == 'c' else None
        elif t.op == 'ite':
            r = 'l' if not (free(t.args[0]) & V) and go(t.args[1]) in ('l', 'z') and go(t.args[2]) in ('l', 'z') else None
        else:
            r = None
        memo[t] = r
        return r
    return go(t)


def is_linear(t, V):
    return kind_of(t, V) in ('l', 'z') or (not free(t) & V and tm.isfc(t) and fval(t) == 0)


def controls(ex, st, q, step, lo=0, hi=0, reset=None, most=48):
    """the values which the cells of q that do not depend on the signal (indices, counters, flags) take while q filters arbitrary
    samples and is reset, starting from st: a finite set closed under both operations (otherwise Unsupported). Cells in [lo, hi)
    are coefficients. Returns [{}] if no such cell ever changes."""
    def val(s, o):
        v = s.mem[q.reg].cells.get(o)
        return FC(0) if v is None else v[0]
    signal = set()      # numbers which depend on the signal
    while True:
        states, todo, again = {}, [st], False
        cells_ = {o for o in st.mem[q.reg].cells if not lo <= o < hi}
        keyof = lambda s: frozenset((o, v) for o in cells_ - signal for v in [val(s, o)] if not (isinstance(v, T) and v.op == 'fc' and fval(v) == 0))
        while todo and not again:
            s = todo.pop()
            for o in cells_ - signal:
                v = val(s, o)
                if isinstance(v, T) and free(v):
                    if v.sort != 'f':
                        raise Unsupported('an integer in the object depends on the signal')
                    signal.add(o)
                    again = True
            k = keyof(s)
            if again or k in states:
                continue
            s = s.clone()
            fl = s.wr(q.reg)
            for o in signal:
                fl.cells[o] = (fvar('any.%s+%d' % (q.reg, o)), 8)
            states[k] = s
            if len(states) > most:
                raise Unsupported('the object counts: more than %d states which do not depend on the signal' % most)
            for o in list(step(fvar('any.x'), s.clone())) + (list(reset(s.clone())) if reset else []):
                if o.kind != 'ret':
                    raise Unsupported('filter or reset throws')
                new_ = {a for a in o.st.mem[q.reg].cells if not lo <= a < hi} - cells_
                cells_ |= new_
                again = again or bool(new_ and len(states) > 1)
                todo.append(o.st)
        if not again:
            break
    vals = [{o: val(s, o) for o in cells_ - signal} for s in states.values()]
    moving = {o for o in cells_ - signal if any(v[o] is not vals[0][o] for v in vals)}
    return [{o: v[o] for o in moving} for v in vals]


def put_control(st, q, e):
    fl = st.wr(q.reg)
    for a, v in e.items():
        fl.cells[a] = (v, fl.cells[a][1])


def cascade(ex, st, name='casc', M=None, ns=None):
    """a Cascade over an array of M sections with arbitrary contents and an arbitrary number of sections in use.
    returns (pointer, array, M, number in use, state)"""
    m = ex.mod
    M = ivar('M', True) if M is None else M
    arr = ex.new_array(st, name + '.stages', m.named('class.Iir::Biquad'), M)
    q = region(ex, st, 'cas', name)
    st = one(ex, 'cas_new', [q, M, arr], st).st
    arbitrary(ex, st, q)
    n = one(ex, 'cas_num', [q], st).val
    st.assume(ile(IC(0), n))
    st.assume(ile(n, M))
    return q, arr, M, n, st


def layout(ex, st, name='lay', cap=None):
    """a LayoutBase over an array with arbitrary contents and an arbitrary number of poles"""
    m = ex.mod
    cap = ivar(name + '.cap', True) if cap is None else cap
    arr = ex.new_array(st, name + '.pairs', m.named('struct.Iir::PoleZeroPair'), idiv(iadd(cap, IC(1)), IC(2)))
    q = region(ex, st, 'lay', name)
    st = one(ex, 'lay_new', [q, cap, arr], st).st
    arbitrary(ex, st, q)
    n = one(ex, 'lay_num', [q], st).val
    st.assume(ile(IC(0), n))
    st.assume(ile(n, cap))
    return q, arr, cap, n, st


def pair_vals(ex, st, p):
    """(p1, p2, z1, z2) as pairs of terms"""
    o = ex.new_flat(st, ex.fresh('pv'), 64)
    s = one(ex, 'pair_get', [p, o], st).st
    v = [settle(tuple(s.pc), ex.load(s, o.plus(8 * i), ir.Ty('double'))) for i in range(8)]
    return (v[0], v[1]), (v[2], v[3]), (v[4], v[5]), (v[6], v[7])


def settle(pc, t, d=0):
    """t without the distinctions between integers which pc decides or which make no difference"""
    if t.op != 'ite' or d > 4:
        return t
    c, a, b = t.args
    if tm.atoms_of(c, lambda x: x.sort == 'f'):
        return t
    if smt.entails(pc, c):
        return settle(pc, a, d + 1)
    if smt.entails(pc, nt(c)):
        return settle(pc, b, d + 1)
    a, b = settle(pc + (c,), a, d + 1), settle(pc + (nt(c),), b, d + 1)
    if c.op == 'ieq0' and a is not b:
        # where the two integers are equal, the first choice may read as the second
        for x, k in c.args[0].args[1]:
            if k in (1, -1):
                r = isub(tm.iatom(x), imul(c.args[0], IC(k)))
                if tm.subst(a, {x: r}) is tm.subst(b, {x: r}):
                    return b
    return tm.ite(c, a, b)


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cscale(k, a):
    return (k * a[0], k * a[1])


def matched(a, b):
    """both real or conjugates of each other"""
    return orr(an(feq(a[1], FC(0)), feq(b[1], FC(0))), an(feq(a[0], b[0]), feq(a[1], -b[1])))


def unit(w):
    """exp(-i w)"""
    return (cos(w), -sin(w))


def inst(st, *idx):
    """instantiate what completed loop iterations established (schemas) at the given iteration numbers"""
    for jat, lo, hi, c in st.schemas:
        for i in idx:
            i = il(i)
            g = an(ile(lo, i), ilt(i, hi))
            b = subst(c, {jat: i})
            if g is FALSE:
                continue
            if smt.entails(st.pc, g):
                st.assume(b)
            elif smt.feasible(st.pc + (g,)):
                st.assume(implies(g, b))


def turns(jat, c, idx):
    """the iterations to consider for the elements idx: those which read one of them in an order of their own, and idx"""
    idx = [il(i) for i in idx]
    own = []
    for s in tm.atoms_of(c, lambda x: x.op == 'sel'):
        d = dict(s.args[1].args[1])
        if d.get(jat) == -1:
            rest = iadd(s.args[1], tm.iatom(jat))
            if not tm.atoms_of(rest, lambda x: x is jat):
                for i in idx:
                    j = isub(rest, i)
                    if j not in own:
                        own.append(j)
    return own or idx


def cases(st, *idx):
    """states, one for each path which the loop iterations idx may have taken (from the schemas of completed loops)"""
    out = [st]
    for jat, lo, hi, c in st.schemas:
        for i in turns(jat, c, idx):
            g = an(ile(lo, i), ilt(i, hi))
            nxt = []
            for s in out:
                if g is FALSE or not smt.entails(s.pc, g):
                    if g is not FALSE and smt.feasible(s.pc + (g,)):
                        s.assume(implies(g, subst(c, {jat: i})))
                    nxt.append(s)
                    continue
                b = subst(c, {jat: i})
                ds = [nt(x) for x in b.args[0].args] if b.op == 'not' and b.args[0].op == 'and' else [b]
                for d in ds:
                    s2 = s.clone()
                    s2.assume(d)
                    if smt.feasible(s2.pc):
                        nxt.append(s2)
            out = nxt
    return out


def entries(st, n, N=None):
    """states with an arbitrary index below n: the first one, and an arbitrary later one"""
    if N:
        for i in range(N):
            yield IC(i), st.clone()
        return
    for i in (IC(0), iadd(ivar('i', True), IC(1))):
        s = st.clone()
        s.assume(ilt(i, n))
        if smt.feasible(s.pc):
            for s2 in cases(s, *([i, isub(i, IC(1))] if i is not IC(0) else [i])):
                yield i, s2


def opened(ex, st, key, maxorder=None, arb=False):
    """a design object of family key over storages for an arbitrary order; returns pointer, info, state"""
    m = ex.mod
    N = ivar('N', True) if maxorder is None else IC(maxorder)
    if maxorder is None:
        st.assume(ile(IC(1), N))
    band = 'Band' in key
    dN = imul(N, IC(2)) if band else N
    pz = m.named('struct.Iir::PoleZeroPair')
    M = idiv(iadd(dN, IC(1)), IC(2))
    ap = ex.new_array(st, 'analog', pz, idiv(iadd(N, IC(1)), IC(2)))
    dp = ex.new_array(st, 'digital', pz, M)
    bq = ex.new_array(st, 'stages', m.named('class.Iir::Biquad'), M)
    p = 'op_' + key
    q = region(ex, st, p, 'filter')
    st = one(ex, p + '_new', [q, N, ap, dN, dp, M, bq], st).st
    if arb:
        arbitrary(ex, st, q)
    return q, dict(N=N, dN=dN, M=M, analog=ap, digital=dp, stages=bq), st


def recs(t):
    return tm.atoms_of(t, lambda x: x.op == 'rec')


def at(t, n, k):
    """t with every recursion evaluated at n evaluated at k instead: 0, an index, or ('next', k) for the unfolded k + 1"""
    m = {}
    for x in recs(t):
        if x.args[2] is not n and x.args[2] != n:
            continue
        if isinstance(k, tuple):
            m[x] = tm.rec_unfold(mk('rec', (x.args[0], x.args[1], iadd(k[1], IC(1))), 'f'))
        elif k is IC(0):
            m[x] = tm.rec_init(x)
        else:
            m[x] = mk('rec', (x.args[0], x.args[1], k), 'f')
    return subst(t, m) if m else t


def stage(ex, arr, i):
    return arr.at(i) if hasattr(arr, 'at') else arr.plus(imul(il(i), IC(size(ex, 'bq'))))


def product(ck, what, ex, st, val, n, sec, k=None, ok=lambda s, i: None):
    """val (a complex pair of terms) is the product of the transfer functions of sections 0..n-1.
    sec(state, i) gives (numerator, denominator) of section i. By induction over the recursion the loop computes."""
    rs = recs(val[0]) + recs(val[1])
    s = st.clone()
    if not rs:
        for c in range(0, 7):
            if smt.entails(s.pc, ieq(n, IC(c))):
                d, nu = (FC(1), FC(0)), (FC(1), FC(0))
                for i in range(c):
                    a, b = sec(s, IC(i))
                    s.assume(nt(feq(b[0] * b[0] + b[1] * b[1], FC(0))))
                    nu, d = cmul(nu, a), cmul(d, b)
                l = cmul(val, d)
                ck.eq('%s: product over %d sections (real)' % (what, c), s.pc, l[0], nu[0])
                ck.eq('%s: product over %d sections (imaginary)' % (what, c), s.pc, l[1], nu[1])
                return
        raise Unsupported('%s: neither a recursion over the sections nor a fixed number of sections' % what)
    # the sections are visited in order, or in reverse order
    k = ivar(ex.fresh('k'), True)
    for c in (rs[0].args[2],):
        ck.eq('%s: as many factors as sections' % what, s.pc, c, n)
        b = s.clone()
        z = [at(v, c, IC(0)) for v in val]
        ck.eq('%s: empty product (real)' % what, s.pc, z[0], FC(1))
        ck.eq('%s: empty product (imaginary)' % what, s.pc, z[1], FC(0))
        s.assume(ilt(k, n))
        s.assume(ile(IC(0), k))
        inst(s, k)
        h = [at(v, c, k) for v in val]
        hn = [at(v, c, ('next', k)) for v in val]
        for order, i in (('in order', k), ('in reverse order', isub(isub(n, IC(1)), k))):
            nu, d = sec(s, i)
            s2 = s.clone()
            s2.assume(nt(feq(d[0] * d[0] + d[1] * d[1], FC(0))))
            l, r = cmul(tuple(hn), d), cmul(tuple(h), nu)
            last = order == 'in reverse order'
            if last or (alg_eq(s2.pc, l[0], r[0]) and alg_eq(s2.pc, l[1], r[1])):
                ck.eq('%s: one more factor, %s (real)' % (what, order), s2.pc, l[0], r[0])
                ck.eq('%s: one more factor, %s (imaginary)' % (what, order), s2.pc, l[1], r[1])
                break


def alg_eq(pc, a, b):
    try:
        if tm.mode() != 'R':
            return a is b or tm.mode() == 'F' and smt.check(list(pc) + [nt(orr(feq(a, b), an(fisnan(a), fisnan(b))))], 4000) == 'unsat'
        return bool(alg.prove_eq(pc, a, b))
    except (alg.Undecided, Unsupported):
        return False


class Abstract:
    """generalisation: the results of tan, sin, cos of parameters are replaced by symbols. What is proved for any values of the
    symbols holds for the values the functions have. Nothing is assumed about the symbols except that equal arguments give
    equal results (and what the caller of find adds as a hypothesis that holds for the function)."""

    def __init__(self, names=('sin', 'cos', 'tan')):
        self.names = names
        self.tab = []
        self.right = []         # arguments strictly between 0 and pi / 2: there the sine is the tangent times the cosine

    def __call__(self, st, name, av, v):
        if tm.mode() != 'R' or name not in self.names or tm.isfc(av[0]) or not free(av[0]) or tm.atoms_of(av[0], lambda x: x.op not in ('fvar', 'fc', 'pi', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg')):
            return v
        return self.sym(st.pc, name, av[0], v)

    def sym(self, pc, name, arg, v):
        if name == 'sin' and any(a is arg or alg_eq(pc, a, arg) for a in self.right):
            return self.find(pc, 'tan', arg) * self.find(pc, 'cos', arg)
        for n, a, s, t in self.tab:
            if n == name and (a is arg or alg_eq(pc, a, arg)):
                return s
        s = fvar('fin:%s.%d' % (name, len(self.tab)))
        self.tab.append((name, arg, s, v))
        return s

    def find(self, pc, name, arg):
        return self.sym(pc, name, arg, {'sin': sin, 'cos': cos}.get(name, lambda x: tm.fn(name, x))(arg))

    def concrete(self, *ts):
        m = {s: t for n, a, s, t in self.tab}
        return tuple(subst(t, m) for t in ts)
