"""C13: the result of a setup does not depend on earlier setups."""
import re
from kernel import *


def syms(*ts):
    """symbols of terms except the iteration numbers of loops"""
    out = set()
    for t in ts:
        if isinstance(t, T):
            r = {x.args[0] for x in tm.atoms_of(t, lambda x: x.op == 'rec')}
            out |= {str(x) for x in free(t) - r}
            # what the recursion of a loop depends on
            for i in r:
                out |= {str(x) for y in tm.rec_free(i) for x in (syms(y) if y.op == 'rec' else free(y))}
    return {x for x in out if not re.fullmatch(r'[kj]#\d+', x)}


def same_recursions(t):
    """t with one name for recursions which are defined alike"""
    for x in tm.atoms_of(t, lambda x: x.op == 'rec'):
        rid = x.args[0]
        ka, comps = tm.RECS.get(rid, (None, {}))
        if rid.startswith('same:') or not comps:
            continue
        d = frozenset((c, *(tm._renrec(subst(y, {ka: ivar('turn')}), rid, 'same:') if isinstance(y, T) else y for y in p)) for c, p in comps.items())
        nm = _alike.setdefault(d, 'same:%d' % len(_alike))
        tm.RECS.setdefault(nm, (ka, {c: tuple(tm._renrec(y, rid, nm) if isinstance(y, T) else y for y in p) for c, p in comps.items()}))
        t = tm._renrec(t, rid, nm)
    return t


_alike = {}


def determined(ck, what, outs, own, contents):
    """outs: outcomes of one function from an arbitrary prior state. own(name): the symbol is an argument (or a capacity).
    Every outcome's contents are functions of the arguments, and two outcomes which arguments alone do not tell apart
    are of the same kind."""
    info = []
    classes = {}
    for o in outs:
        pre = [c for c in o.st.pc if not all(own(x) for x in syms(c))]
        rest = [c for c in o.st.pc if all(own(x) for x in syms(c))]
        sch = [x for x in o.st.schemas]
        fresh = {}
        for c in rest + [x[3] for x in sch]:
            for v in sorted(tm.atoms_of(c, lambda x: x.op == 'ivar' and '#' in str(x.args[0])), key=lambda x: x.id):
                fresh.setdefault(v, ivar('canon%d' % len(fresh), v.args[1]))
        cn = lambda t: same_recursions(subst(t, fresh)) if isinstance(t, T) else t
        # the fact assumed about the index of the last iteration is one of the conditions
        key = (o.kind, frozenset(cn(c) for c in rest), frozenset((cn(a), cn(lo), cn(hi), cn(c)) for a, lo, hi, c in sch))
        classes.setdefault(frozenset(pre), set()).add(key)
    # what every outcome has in common is an invariant of the object; outcomes without any other condition on the prior
    # state occur whatever it was
    common = frozenset.intersection(*classes) if classes else frozenset()
    classes.pop(common, None) if len(classes) > 1 else None
    uniform = len(set(map(frozenset, classes.values()))) == 1
    for o in outs:
        args = [c for c in o.st.pc if all(own(x) for x in syms(c))]
        if o.kind == 'ret':
            for nm, vals, pc in contents(o):
                bad = sorted(x for x in syms(*[v for v in vals if v is not INF]) if not own(x))
                ck.ok('%s: %s depends on the arguments only' % (what, nm), not bad, bad[:5])
        info.append((o.kind, args))
    if uniform and outs:
        # a deterministic function has exactly one of these outcomes, whatever the prior state
        ck.add('%s: the same outcomes, distinguished by the arguments, from every prior state' % what, 'proved', 'syntactic')
        return
    for i, (k1, a1) in enumerate(info):
        for k2, a2 in info[:i]:
            if k1 != k2:
                u = smt.entails(tuple(a1) + tuple(a2), FALSE)
                if not u and tm.mode() == 'R':
                    u = alg.prove_cmp(tuple(a1) + tuple(a2), FALSE, timeout=2000)
                ck.add('%s: arguments decide between returning and throwing' % what, 'proved' if u else 'undecided', 'z3')


def proto(ck, ns, cls):
    check_history(ck, ns, cls)
    what = '%s::%s' % (ns, cls)
    for mode_ in ('R', 'F'):
        tm.MODE[0] = mode_
        try:
            P = Proto(ck, ns, cls)
            if mode_ == 'R':
                P.st.assume(par_ok(ns, cls, P.par))
            pre = syms(*P.par) | {'n', 'N'}

            def own(x):
                return x in pre or x.startswith('i')

            def contents(o):
                s = o.st
                yield 'number of poles', (P.num(s),), s.pc
                yield 'reference', P.normal(s), s.pc
                h = idiv(P.n, IC(2))
                for i, c in ((IC(0), ilt(IC(0), h)), (iadd(ivar('i', True), IC(1)), ilt(iadd(ivar('i', True), IC(1)), h)), (h, ieq(irem2(P.n), IC(1)))):
                    s1 = s.clone()
                    s1.assume(c)
                    if smt.feasible(s1.pc):
                        for v, s2 in P.pair(s1, i):
                            yield 'pair', [x for z in v for x in z], s2.pc
            outs = [o for o in P.design() if not (o.kind == 'ret' and P.unchanged(P.st, o.st))]
            determined(ck, what + (' (floating point)' if mode_ == 'F' else ''), outs, own, contents)
        finally:
            tm.MODE[0] = 'R'


def transform(ck, t, shape):
    T = Trans(ck, t, shape, valid=False)
    pre = {'n', 'fc', 'fw', 'A.cap', 'D.cap', 'fin:W', 'fin:G'}

    def own(x):
        return x in pre or x.startswith(('fin:A', 'fin:tan', 'fin:cos', 'fin:sin', 'i'))

    def contents(o):
        yield 'number of poles', (T.num(o.st),), o.st.pc
        yield 'reference', T.normal(o.st), o.st.pc
        j = iadd(ivar('i', True), IC(1))
        h = idiv(T.n, IC(2))
        at_ = [(IC(0), ilt(IC(0), h)), (j, ilt(j, h))] if T.k == 1 else [(IC(0), ilt(IC(0), h)), (IC(1), ilt(IC(0), h)), (imul(j, IC(2)), ilt(j, h)), (iadd(imul(j, IC(2)), IC(1)), ilt(j, h))]
        at_.append((h if T.k == 1 else isub(T.n, IC(1)), ieq(irem2(T.n), IC(1))))
        for i, c in at_:
            s = o.st.clone()
            s.assume(c)
            if smt.feasible(s.pc):
                for x in run(T.ex, 'lay_at', [T.D, i], s.clone()):
                    if x.kind == 'ret':
                        v = pair_vals(T.ex, x.st, x.val)
                        yield 'pair', [y for z in v for y in z], x.st.pc
    determined(ck, '%sTransform (%s)' % (t, shape), T.outs, own, contents)


def realise(ck):
    ex = Executor(ck.m)
    st = State()
    q, arr, M, n0, st = cascade(ex, st)
    l, pr, cap, np, st = layout(ex, st)
    lay = syms(np, *normal(ex, l, st)) | {'M', 'lay.cap'}
    rs = Response()
    ex.contracts = {rs.name: rs}
    lname = 'lay.pairs'
    ex.collect = False

    def own(x):
        return x in lay or x.startswith('(\'' + lname) or lname in x or x.startswith(('i', 'r', 'fin:R'))

    def contents(o):
        yield 'number of sections', (one(ex, 'cas_num', [q], o.st.clone()).val,), o.st.pc
        for i in (IC(0), iadd(ivar('i', True), IC(1))):
            s = o.st.clone()
            s.assume(ilt(i, M))
            if smt.feasible(s.pc):
                for s1 in cases(s, *([i, isub(i, IC(1))] if i is not IC(0) else [i])):
                    for rng in (ilt(i, idiv(iadd(np, IC(1)), IC(2))), ile(idiv(iadd(np, IC(1)), IC(2)), i)):
                        s2 = s1.clone()
                        s2.assume(rng)
                        if smt.feasible(s2.pc):
                            yield 'section', list(raw(ex, s2, stage(ex, arr, i)).values()), s2.pc
    outs = run(ex, 'cas_layout', [q, l], st)
    determined(ck, 'Cascade::setLayout', [o for o in outs if o.kind == 'ret'], own, contents)
    for o in outs:
        bad = sorted(x for c in o.st.pc for x in syms(c) if not own(x) and x not in syms(n0))
        ck.ok('Cascade::setLayout: the layout decides between returning and throwing', not bad, bad[:5])
        for e in o.st.events:
            if e[0] == 'response':
                p, f, R, s = rs.calls[e[1]]
                ck.ok('Cascade::setLayout: response of its own sections', p == q)
                bad = sorted(x for x in syms(f, one(ex, 'cas_num', [q], s.clone()).val) if not own(x))
                ck.ok('Cascade::setLayout: the response it uses depends on the layout only', not bad, bad)
                for i in (IC(0), iadd(ivar('i', True), IC(1))):
                    s1 = s.clone()
                    s1.assume(ilt(i, idiv(iadd(np, IC(1)), IC(2))))
                    if smt.feasible(s1.pc):
                        for s2 in cases(s1, *([i, isub(i, IC(1))] if i is not IC(0) else [i])):
                            bad = sorted(x for x in syms(*raw(ex, s2, stage(ex, arr, i)).values()) if not own(x))
                            ck.ok('Cascade::setLayout: the response it uses depends on the layout only', not bad, bad[:5])
    ck.use(ex)


def normal(ex, l, st):
    return one(ex, 'lay_w', [l], st.clone()).val, one(ex, 'lay_g', [l], st.clone()).val


def setup(ck, key):
    S = check_setup(ck, key)
    for o in S.outs:
        if o.kind != 'ret':
            ck.ok('%s: throws only if design, transform or setLayout throw' % key, str(o.info).startswith('by ') or o.info == 'resume', o.info)
        c = S.calls(o)
        own = syms(S.n, *S.f, *S.e) | {'N'}
        for x in c:
            vals = ([x[2]] + list(x[3]) if x[0] == 'design' else list(x[2]) if x[0] == 'transform' else [])
            bad = sorted(y for v in vals for y in syms(v) if y not in own)
            ck.ok('%s: %s gets the arguments of the setup' % (key, x[0]), not bad, bad)


def direct(ck, fnm, p, nargs, getp=None, size_of=None, order=False):
    """a function which sets the coefficients of one section"""
    for mode_ in ('R', 'F'):
        tm.MODE[0] = mode_
        try:
            ex = Executor(ck.m)
            st = State()
            q = region(ex, st, p, 'filter', inp=True)
            a = [fvar('x%d' % i) for i in range(nargs)]
            own = syms(*a)

            def contents(o):
                b = one(ex, getp, [q], o.st.clone()).val if getp else q
                yield 'coefficients', [v for v in raw(ex, o.st.clone(), b).values()], o.st.pc
            determined(ck, fnm + (' (floating point)' if mode_ == 'F' else ''), run(ex, fnm, [q] + a, st), lambda x: x in own, contents)
            ck.use(ex)
        finally:
            tm.MODE[0] = 'R'


def sos(ck, S, N):
    p = 'sos_%s_%d' % (SHORT[S], N)
    ex = Executor(ck.m)
    st = State()
    q, st = new(ex, st, p)
    st.wr(q.reg)
    b = one(ex, p + '_stages', [q], st.clone()).val
    bs = size(ex, 'bq')
    for i in range(N):
        for k in COEF:
            ex.store(st, b.plus(i * bs + ex.member('Iir::Biquad', 'm_' + k)), F64, fvar('old%d%s' % (i, k)))
    m = ex.new_flat(st, 'matrix', 48 * N)
    for i in range(6 * N):
        ex.store(st, m.plus(8 * i), F64, fvar('x%d' % i))

    def contents(o):
        for i in range(N):
            yield 'section', list(raw(ex, o.st.clone(), b.plus(i * bs)).values()), o.st.pc
    determined(ck, 'SOSCascade<%d,%s>::setup' % (N, S), run(ex, p + '_setup', [q, m], st), lambda x: x.startswith('x'), contents)
    ck.use(ex)


def check(ck):
    ck.m = mod('core', 'open', 'cascade')
    for ns, cls in PROTO:
        ck.group('%s::%s' % (ns, cls), lambda: proto(ck, ns, cls))
    for t in TRANS:
        for sh in SHAPES:
            ck.group('%sTransform (%s)' % (t, sh), lambda: transform(ck, t, sh))
    ck.group('Cascade::setLayout', lambda: realise(ck))
    for key in FAM:
        ck.group(key, lambda: setup(ck, key))
    for cls, (ps, d) in RBJ.items():
        ck.group('RBJ::' + cls, lambda: direct(ck, 'rbj_%s_setupN' % cls, 'rbj_' + cls, 1 + len(ps), 'rbj_%s_bq' % cls))
    for c, k in (('OnePole', 3), ('TwoPole', 5)):
        ck.group('Custom::' + c, lambda: direct(ck, 'cu_%s_setup' % c, 'cu_' + c, k, 'cu_%s_bq' % c))
    for f, k in (('bq_set', 6), ('bq_onepole', 4), ('bq_twopole', 8), ('bq_identity', 0)):
        ck.group(f, lambda: direct(ck, f, 'bq', k))
    for S in STATES:
        ck.group('SOSCascade ' + S, lambda: sos(ck, S, 2))
    ck.contracts['design of the six analogue prototypes'] = 'invariant: whenever design would skip the computation the layout is that of its arguments; otherwise outcome and layout are functions of the arguments'
    ck.contracts['LowPassTransform, HighPassTransform, BandPassTransform, BandStopTransform'] = 'outcome and digital layout are functions of the frequencies and the analogue layout, whatever the digital layout held'
    ck.contracts['Iir::Cascade::setLayout'] = 'outcome and all reserved sections are functions of the layout'
    ck.contracts['setup(order, ..) of every Butterworth/Chebyshev class'] = 'calls design, transform and setLayout with its own arguments; throws only if one of them throws; changes nothing afterwards'
    ck.contracts['setupN of every RBJ class, Custom::*::setup, Biquad::setCoefficients/setOnePole/setTwoPole/setIdentity, SOSCascade::setup'] = 'outcome and coefficients are functions of the arguments'
