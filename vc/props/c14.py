"""C14: a lower order than reserved uses just the sections it needs."""
from kernel import *
from props.c02 import setup as c02_setup, sections, state_offset, slices
import props.c09 as c09
import props.c08 as c08
import props.c13 as c13

IDENT = {'a0': 1, 'a1': 0, 'a2': 0, 'b0': 1, 'b1': 0, 'b2': 0}


def ident(ex, st, p):
    for k in COEF:
        ex.store(st, p.plus(ex.member('Iir::Biquad', 'm_' + k)), F64, FC(IDENT[k]))


def clear_cells(ex, st, S, b):
    """delay line cells of an identity section which are zero after construction and stay zero: greatest invariant"""
    p = SHORT[S]
    l, st = new(ex, st, p, ex.fresh('line'))
    ss = size(ex, p)
    zero = []
    for o in range(0, ss, 8):
        v = ex.flat_load(st.clone(), l.reg, o, F64)
        if isinstance(v, T) and alg_eq((), v, FC(0)):
            zero.append(o)
    while True:
        s = st.clone()
        r = ex.new_flat(s, ex.fresh('line'), ss, inp=True)
        for o in zero:
            ex.flat_store(s, r.reg, o, F64, FC(0))
        keep = list(zero)
        outs = run(ex, p + '_filter', [r, fvar('x'), b], s)
        for o in outs:
            keep = [a for a in keep if alg_eq(o.st.pc, ex.flat_load(o.st.clone(), r.reg, a, F64), FC(0))]
        if keep == zero:
            return zero, outs
        zero = keep


def identity(ck, S):
    """one sample through an identity section whose delay lines are any it can reach from clear ones"""
    ex = Executor(ck.m)
    st = State()
    b = region(ex, st, 'bq', 'b')
    st = one(ex, 'bq_new', [b], st).st
    st = one(ex, 'bq_identity', [b], st).st
    c = raw(ex, st, b)
    for k in COEF:
        ck.eq('%s: setIdentity: %s' % (S, k), st.pc, c[k], FC(IDENT[k]))
    zero, outs = clear_cells(ex, st, S, b)
    ck.ok('%s: filter returns' % S, bool(outs))
    for o in outs:
        ck.ok('%s: filter returns' % S, o.kind == 'ret')
        ck.eq('%s: an identity section passes the sample' % S, o.st.pc, o.val, fvar('x'))
    ck.use(ex)


def identity_bounded(ck, S, n=8):
    ex = Executor(ck.m)
    st = State()
    b = region(ex, st, 'bq', 'b')
    st = one(ex, 'bq_new', [b], st).st
    st = one(ex, 'bq_identity', [b], st).st
    l, st = new(ex, st, SHORT[S], 'line')
    cur = [st]
    for i in range(n):
        x = fvar('x%d' % i)
        nxt = []
        for s in cur:
            for o in run(ex, SHORT[S] + '_filter', [l, x, b], s):
                ck.ok('returns', o.kind == 'ret')
                ck.eq('%s: identity, sample %d' % (S, i), o.st.pc, o.val, x)
                nxt.append(o.st)
        cur = nxt


def chain(ck, p, S, n):
    """N sections, of which those from n on are the identity: the first n alone, from any delay lines of these"""
    ex = Executor(ck.m)
    q, st, b, N = c02_setup(ex, p, S)
    bs, ss = size(ex, 'bq'), size(ex, SHORT[S])
    for i in range(n, N):
        ident(ex, st, b.plus(i * bs))
    off = state_offset(ex, p, q, st, S, N, b)
    fl = st.wr(q.reg)
    for o in [o for o in fl.cells if off <= o < off + N * ss]:
        del fl.cells[o]
    fl.fills.append((off, off + N * ss, ('input', q.reg, off)))
    s0 = State()
    bi = region(ex, s0, 'bq', 'bi')
    s0 = one(ex, 'bq_new', [bi], s0).st
    ident(ex, s0, bi)
    zero, _ = clear_cells(ex, s0, S, bi)
    for i in range(n, N):
        for a in zero:
            ex.flat_store(st, q.reg, off + i * ss + a, F64, FC(0))
    x = fvar('x')
    s = st.clone()
    lines = slices(ex, s, q, off, S, N)
    v = x
    for i in range(n):
        o = one(ex, SHORT[S] + '_filter', [lines[i], v, b.plus(i * bs)], s)
        v, s = o.val, o.st
    for o in run(ex, p + '_filter_d', [q, x], st):
        ck.ok('%s: returns' % p, o.kind == 'ret')
        ck.eq('%s: output of the first %d sections' % (p, n), o.st.pc, o.val, v)
        for i in range(n, N):
            for a in zero:
                ck.eq('%s: clear delay line cells of identity section %d stay clear' % (p, i), o.st.pc, ex.flat_load(o.st.clone(), q.reg, off + i * ss + a, F64), FC(0))
    ck.use(ex)


def chain_bounded(ck, p, S, n, m=4):
    ex = Executor(ck.m)
    st = State()
    q, st = new(ex, st, p)
    b = one(ex, p + '_stages', [q], st).val
    N = ival(one(ex, p + '_max', [q], st).val)
    bs = size(ex, 'bq')
    sections(ex, st, b, n)
    for i in range(n, N):
        ident(ex, st, b.plus(i * bs))
    lines = []
    for i in range(n):
        l, st = new(ex, st, SHORT[S], 'line%d' % i)
        lines.append(l)
    cur = [(st, st.clone())]
    for j in range(m):
        x = fvar('x%d' % j)
        nxt = []
        for st, s in cur:
            v = x
            for i in range(n):
                o = one(ex, SHORT[S] + '_filter', [lines[i], v, b.plus(i * bs)], s)
                v, s = o.val, o.st
            for o in run(ex, p + '_filter_d', [q, x], st):
                ck.ok('returns', o.kind == 'ret')
                ck.eq('%s: sample %d' % (p, j), o.st.pc, o.val, v)
                nxt.append((o.st, s))
        cur = nxt


def room(ck, T, what, o):
    """nothing a transform returns depends on how many poles the storages have room for"""
    caps = {'A.cap', 'D.cap'}
    ck.ok('%s: the reference does not depend on the reserved size' % what, not c13.syms(*T.normal(o.st)) & caps)
    j = iadd(ivar('i', True), IC(1))
    h = idiv(T.n, IC(2))
    at_ = [(IC(0), ilt(IC(0), h)), (j, ilt(j, h))] if T.k == 1 else \
        [(IC(0), ilt(IC(0), h)), (IC(1), ilt(IC(0), h)), (imul(j, IC(2)), ilt(j, h)), (iadd(imul(j, IC(2)), IC(1)), ilt(j, h))]
    at_.append((h if T.k == 1 else isub(T.n, IC(1)), ieq(irem2(T.n), IC(1))))
    for i, c in at_:
        s = o.st.clone()
        s.assume(c)
        if smt.feasible(s.pc):
            for v, s2 in T.pair(s, i):
                bad = c13.syms(*[x for z in v for x in z if x is not INF]) & caps
                ck.ok('%s: no pole or zero depends on the reserved size' % what, not bad, bad)


def transform(ck, t, shape):
    """pole count and order of the sections a transform makes"""
    T = Trans(ck, t, shape)
    k, n = 0, T.n
    what = '%sTransform' % t
    for o in T.outs:
        if o.kind != 'ret':
            continue
        k += 1
        ck.eq('%s: number of poles' % what, o.st.pc, T.num(o.st), imul(n, IC(T.k)))
        room(ck, T, what, o)
        if T.k == 1:
            s0 = o.st.clone()
            s0.assume(ieq(irem2(n), IC(1)))
            j = idiv(n, IC(2))
            for s in cases(s0, isub(j, IC(1))):
                for (p1, p2, z1, z2), s2 in T.pair(s, j):
                    for x in p2 + z2:
                        ck.eq('%s: the last pair of an odd order is a single real pole and zero' % what, s2.pc, x, FC(0))
    ck.ok('%s: returns' % what, k > 0)


def first_order(ck):
    """a section made of a single pole and zero has no second-order terms; a pair of non-zero poles has"""
    ex = Executor(ck.m)
    st = State()
    b = region(ex, st, 'bq', 'b')
    st = one(ex, 'bq_new', [b], st).st
    arbitrary(ex, st, b)
    pp = region(ex, st, 'pair', 'pz')
    pr, pi, zr, zi, qr, qi, yr, yi = fv('pr', 'pi', 'zr', 'zi', 'qr', 'qi', 'yr', 'yi')
    k = 0
    for o in [o for m in run(ex, 'pair_new1', [pp, pr, pi, zr, zi], st.clone()) if m.kind == 'ret' for o in run(ex, 'bq_pair', [b, pp], m.st)]:
        if o.kind != 'ret':
            continue
        k += 1
        c = coefs(ex, o.st, b)
        ck.eq('single pole: a2', o.st.pc, c['a2'], FC(0))
        ck.eq('single zero: b2', o.st.pc, c['b2'], FC(0))
    ck.ok('single pole: returns', k > 0)
    k = 0
    for o in [o for m in run(ex, 'pair_new', [pp, pr, pi, zr, zi, qr, qi, yr, yi], st.clone()) if m.kind == 'ret' for o in run(ex, 'bq_pair', [b, pp], m.st)]:
        if o.kind != 'ret':
            continue
        k += 1
        c = coefs(ex, o.st, b)
        z = cmul((pr, pi), (qr, qi))
        pc = o.st.pc + (nt(feq(c['a0'], FC(0))),)
        ck.eq('pole pair: a2 is the product of the poles', pc, c['a2'], z[0] * c['a0'])
    ck.ok('pole pair: returns', k > 0)
    ck.use(ex)


def user(ck, k, N, S):
    """an instantiated filter reserves as many sections as its order needs"""
    p = 'u_%s_%s_%d' % (k, SHORT[S], N)
    ex = Executor(ck.m)
    st = State()
    q, st = new(ex, st, p)
    m = one(ex, p + '_max', [q], st).val
    want = N if harness.band(k) else (N + 1) // 2
    ck.holds('%s: reserves the sections of its order' % p, st.pc, ile(IC(want), m))
    ck.use(ex)


def check(ck):
    Ns = sizes(ck, range(2, 6), range(2, 13), (8,))
    from props.c02 import user_insts
    ui = user_insts()
    ck.m = core.module({'core': harness.g_core(), 'open': harness.g_open(), 'cascade': harness.g_cascade(Ns), 'user': harness.g_user(ui)})
    ck.group('Cascade::setLayout', lambda: check_layout(ck), lambda: [check_layout(ck, N=k, scale=False) for k in (2, 3)], 'up to 3 sections', exact=False)
    ck.group('sections of first and second order', lambda: first_order(ck))
    for key in FAM:
        ck.group('%s::setup' % key, lambda: check_setup(ck, key))
    for ns, c in PROTO:
        ck.group('%s::%s' % (ns, c), lambda: check_design(ck, ns, c))
        ck.group('%s::%s: skipped designs' % (ns, c), lambda: check_history(ck, ns, c))
    for t in TRANS:
        for sh in SHAPES:
            ck.group('%sTransform: poles and sections (%s)' % (t, sh), lambda: transform(ck, t, sh))
    for S in STATES:
        ck.group('%s: identity section' % S, lambda: identity(ck, S), lambda: identity_bounded(ck, S), '8 samples', exact=False)
        for pre in ('cs', 'sos'):
            for N in Ns:
                p = '%s_%s_%d' % (pre, SHORT[S], N)
                for n in sorted({1, N // 2, N - 1} if not ck.thorough else set(range(1, N))):
                    if n:
                        ck.group('%s: %d of %d sections' % (p, n, N), lambda: chain(ck, p, S, n), lambda: chain_bounded(ck, p, S, n), '4 samples after construction', exact=False)
    for k, N, S in ui:
        ck.group('%s<%d>' % (k, N), lambda: user(ck, k, N, S))
    ck.group('response of the sections in use', lambda: c09.cas(ck), lambda: [c09.cas(ck, N) for N in (1, 2, 3)], 'up to 3 sections', exact=False)
    ck.contracts['Iir::Cascade::setLayout'] = 'ceil(n/2) sections from n poles, every other reserved section is the identity; for any number of reserved sections'
    ck.contracts['State::filter'] = 'an identity section whose delay lines were clear when it became one passes every sample unchanged'
    ck.contracts['CascadeStages<N,State>::filter'] = 'with identity sections from n on: the composition of the first n sections'
