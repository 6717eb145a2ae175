"""C10: invalid frequencies, widths and orders are rejected by every design, valid ones are accepted."""
from kernel import *
import props.c15 as c15
import props.c18 as c18


class ieee:
    """doubles instead of real numbers"""

    def __enter__(self):
        tm.MODE[0] = 'F'

    def __exit__(self, *a):
        tm.MODE[0] = 'R'


def invalid_frequency(f):
    return (('a negative frequency', lambda: flt(f, FC(0))), ('a frequency at or above half the sampling rate', lambda: fle(FC(H), f)), ('a frequency which is not a number', lambda: fisnan(f)))


def not_positive(x):
    return (('a width or Q of zero or below', lambda: fle(x, FC(0))), ('a width or Q which is not a number', lambda: fisnan(x)))


def rejects(ck, what, ex, fnm, args, st, conds):
    """every outcome under each of the conditions is an std::invalid_argument"""
    for nm, c in conds:
        s = st.clone()
        s.assume(c())
        n = 0
        ck.ok('%s: %s is a value' % (what, nm), smt.feasible(s.pc))
        for o in run(ex, fnm, args, s):
            if o.kind == 'ret':
                ck.holds('%s: rejects %s' % (what, nm), o.st.pc, FALSE)
                continue
            n += 1
            ck.ok('%s: std::invalid_argument for %s' % (what, nm), 'invalid_argument' in str(o.info), o.info)
        ck.ok('%s: %s is rejected' % (what, nm), n > 0)


def rbj(ck, cls):
    ps, _ = RBJ[cls]
    p = 'rbj_' + cls
    with ieee():
        ex = Executor(ck.m)
        st = State()
        q = region(ex, st, p, 'filter', inp=True)
        f = fvar('f')
        v = [fvar(x) for x in ps]
        cs = list(invalid_frequency(f))
        for x, y in zip(ps, v):
            if x in ('q', 'bw'):
                cs += not_positive(y)
        rejects(ck, 'RBJ::' + cls, ex, p + '_setupN', [q, f] + v, st, cs)
        ck.use(ex)
    n = sum(1 for _ in c18.designed(ck, cls))       # accepts every valid parameter
    ck.ok('RBJ::%s: accepts valid parameters' % cls, n > 0)
    c15.rbj(ck, cls)


def trans_rejects(ck, t):
    with ieee():
        ex = Executor(ck.m)
        st = State()
        A, a, st = analog(ex, st, 'shelf')
        D, da, dcap, dn, st = layout(ex, st, 'D')
        f = fv('fc', 'fw')[:TRANS[t]]
        cs = list(invalid_frequency(f[0]))
        if TRANS[t] == 2:
            cs += not_positive(f[1])
        rejects(ck, '%sTransform' % t, ex, 'tr_' + t, f + [D, A], st, cs)
        ck.use(ex)


def trans_accepts(ck, t, shape):
    T = Trans(ck, t, shape)
    what = '%sTransform' % t
    n = 0
    facts = ()
    for o in T.outs:
        if o.kind != 'ret':
            ck.holds('%s: valid frequencies are accepted' % what, o.st.pc, FALSE)
        else:
            n += 1
    ck.ok('%s: valid frequencies are accepted' % what, n > 0)


def proto(ck, ns, cls):
    what = '%s::%s' % (ns, cls)
    with ieee():
        P = Proto(ck, ns, cls)
        rejects(ck, what, P.ex, P.p + '_design', [P.q, P.n] + P.par, P.st, [('an order below one', lambda: ilt(P.n, IC(1)))])
    P = Proto(ck, ns, cls)
    P.st.assume(par_ok(ns, cls, P.par))
    P.st.assume(ile(IC(1), P.n))
    n = 0
    for o in P.design():
        if o.kind != 'ret':
            ck.holds('%s: accepts every order and parameter in its range' % what, o.st.pc, FALSE)
        else:
            n += 1
    ck.ok('%s: accepts every order' % what, n > 0)


def layout_accepts(ck, N=None):
    """setLayout accepts every layout made of conjugate pairs of finite values with an optional single real one at the end"""
    what = 'Cascade::setLayout'
    ex = Executor(ck.m)
    st = State()
    q, arr, M, n0, st = cascade(ex, st)
    l, a, st = analog(ex, st, 'shelf')
    st.assume(ile(idiv(iadd(a['n'], IC(1)), IC(2)), M))
    st.assume(fle(FC(0), a['W']))
    st.assume(fle(a['W'], PI))
    rs = Response()
    ex.contracts = {rs.name: rs}
    ex.collect = False
    n = 0
    for o in run(ex, 'cas_layout', [q, l], st):
        if o.kind == 'ret':
            n += 1
            continue
        # the response at the reference is finite and not zero: C19
        ev = [rs.calls[e[1]] for e in o.st.events if e[0] == 'response']
        ck.holds('%s: accepts every layout made by a transform' % what, o.st.pc + tuple(nt(feq(r[2][0] * r[2][0] + r[2][1] * r[2][1], FC(0))) for r in ev), FALSE)
    ck.ok('%s: returns' % what, n > 0)
    # too many poles
    st = State()
    q, arr, M, n0, st = cascade(ex, st)
    l, pr, cap, np, st = layout(ex, st)
    st.assume(ilt(M, idiv(iadd(np, IC(1)), IC(2))))
    for o in run(ex, 'cas_layout', [q, l], st):
        ck.ok('%s: rejects a layout which is too large' % what, o.kind == 'throw' and 'invalid_argument' in str(o.info), o)
    ck.use(ex)


def setup(ck, key):
    """setup returns only if the design, the transform and setLayout have returned, and throws only what they throw"""
    S = contracts.Setup(ck, key)
    n = t = 0
    for o in S.outs:
        c = S.calls(o)
        if o.kind != 'ret':
            t += 1
            ck.ok('%s: throws only what design, transform or setLayout throw' % key, 'by ' in str(o.info) or o.info == 'resume', o.info)
            continue
        n += 1
        pat = [x[0] for x in c]
        if pat != ['design', 'transform', 'layout']:
            raise Unsupported('%s: setup is not design, transform, setLayout but %s' % (key, ', '.join(pat)))
        ck.eq('%s: the order is checked' % key, o.st.pc, c[0][2], S.n)
        for x, y, nm in zip(c[1][2], S.f, S.fr):
            ck.eq('%s: %s is checked' % (key, nm), o.st.pc, x, y)
        for x, y, nm in zip(c[0][3], S.e, S.exr):
            ck.eq('%s: %s reaches the prototype' % (key, nm), o.st.pc, x, y)
        ck.ok('%s: transform' % key, c[1][1] == contracts.TR[S.c], c[1][1])
    ck.ok('%s: returns' % key, n > 0)
    ck.ok('%s: passes exceptions on' % key, t >= 3, t)


def user(ck, key, N, S):
    """the order-selecting overloads throw an std::invalid_argument iff the order is above the instantiated one"""
    p = 'u_%s_%s_%d' % (key, SHORT[S], N)
    ns, c, fr, exr = FAM[key]
    with ieee():
        rec = c15.Recorder(key)
        ex = Executor(ck.m, contracts={rec.name: rec})
        st = State()
        q, st = new(ex, st, p)
        arbitrary(ex, st, q)
        n = ivar('order')
        st.assume(ilt(IC(N), n))
        for fnm, pre in (('setup_o', [fvar('sr')]), ('setupN_o', [])):
            what = '%s<%d>::%s' % (key, N, fnm)
            for o in run(ex, p + '_' + fnm, [q, n] + pre + [fvar(x) for x in fr + exr], st.clone()):
                ck.ok('%s: rejects an order above the instantiated one' % what, o.kind == 'throw' and 'invalid_argument' in str(o.info), o)
                ck.ok('%s: nothing is designed' % what, not [e for e in o.st.events if e[0] == 'setup'])
        ck.use(ex)
    c15.user(ck, key, N, S)


def quotient(ck):
    f, s = fv('f', 's')
    ck.holds('f / rate is negative iff f is', (flt(FC(0), s), flt(f, FC(0))), flt(f / s, FC(0)))
    ck.holds('f / rate is at or above 1/2 iff f is at or above rate / 2', (flt(FC(0), s), fle(s * FC(H), f)), fle(FC(H), f / s))
    ck.holds('f / rate is not positive iff f is not', (flt(FC(0), s), fle(f, FC(0))), fle(f / s, FC(0)))
    ck.holds('f / rate is valid if f is', (flt(FC(0), s), flt(FC(0), f), flt(f, s * FC(H))), an(flt(FC(0), f / s), flt(f / s, FC(H))))


def check(ck):
    ui = c15.insts(ck.thorough)
    ck.m = core.module({'core': harness.g_core(), 'open': harness.g_open(), 'user': harness.g_user(ui)})
    for cls in RBJ:
        ck.group('RBJ::' + cls, lambda: rbj(ck, cls))
    for ns, c in PROTO:
        ck.group('%s::%s' % (ns, c), lambda: proto(ck, ns, c))
    for t in TRANS:
        ck.group('%sTransform: rejects' % t, lambda: trans_rejects(ck, t))
        for sh in SHAPES:
            ck.group('%sTransform: accepts (%s)' % (t, sh), lambda: trans_accepts(ck, t, sh))
    ck.group('Cascade::setLayout', lambda: layout_accepts(ck))
    for key in FAM:
        ck.group('%s::setup' % key, lambda: setup(ck, key))
    for k, N, S in ui:
        ck.group('%s<%d>' % (k, N), lambda: user(ck, k, N, S))
    ck.group('sampling rate', lambda: quotient(ck))
    ck.contracts['XTransform'] = 'throws std::invalid_argument (IEEE doubles) if fc < 0, fc >= 1/2, fc is NaN, or fw is not positive; accepts every valid value (real arithmetic)'
    ck.contracts['AnalogLowPass::design, AnalogLowShelf::design'] = 'throws std::invalid_argument for an order below 1; accepts every order and parameter in range'
    ck.contracts['RBJ::X::setupN'] = 'throws std::invalid_argument (IEEE doubles) for an invalid frequency, Q or bandwidth; accepts every valid one'
