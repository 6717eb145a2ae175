"""C15: all overloads of a setup agree."""
from lib import *

DEFAULT = {'sqrt1_2': FC(1) / tm.fn('sqrt', FC(2)), '10': FC(10), '1': FC(1)}


def same_setups(ck, what, ex, p, st, q, a, b, get):
    """two calls from the same state have the same outcomes: same exceptions, same values get() afterwards"""
    oa, ob = run(ex, a[0], [q] + a[1], st.clone()), run(ex, b[0], [q] + b[1], st.clone())
    n = 0
    for x in oa:
        for y in ob:
            s = State()
            s.pc = x.st.pc
            for c in y.st.pc:
                s.assume(c)
            if not smt.feasible(s.pc):
                continue
            if x.kind != y.kind:
                ck.holds('%s: both throw or both return' % what, s.pc, FALSE)
                continue
            n += 1
            if x.kind != 'ret':
                continue
            gx, gy = get(x.st), get(y.st)
            ck.ok('%s: same storage is written' % what, sorted(gx) == sorted(gy), (sorted(gx), sorted(gy)))
            for k in gx:
                if k in gy:
                    ck.same('%s: %s' % (what, k), s.pc, gx[k], gy[k])
    ck.ok('%s: cases' % what, n > 0)


def rbj(ck, cls):
    ps, dflt = RBJ[cls]
    ex = Executor(ck.m)
    st = State()
    p = 'rbj_' + cls
    q = region(ex, st, p, 'filter', inp=True)
    f, sr = fvar('f'), fvar('sr')
    st.assume(nt(feq(sr, FC(0))))
    v = [fvar(x) for x in ps]

    def get(s):
        b = one(ex, p + '_bq', [q], s).val
        r = coefs(ex, s, b)
        for o, (x, z) in s.mem[q.reg].cells.items():
            if isinstance(x, T) and x.sort == 'f' and o not in [b.off.args[0] + ex.member('Iir::Biquad', 'm_' + k) for k in COEF]:
                r['cell +%d' % o] = x
        return {k: x for k, x in r.items() if not (x.op == 'var' and k.startswith('cell'))}
    n = fdiv(f, sr)
    same_setups(ck, 'RBJ::%s: setup(sampleRate, f, ..) is setupN(f/sampleRate, ..)' % cls, ex, p, st, q, (p + '_setup', [sr, f] + v), (p + '_setupN', [n] + v), get)
    if dflt:
        d = DEFAULT[dflt]
        same_setups(ck, 'RBJ::%s: default argument of setupN' % cls, ex, p, st, q, (p + '_setupN_d', [f] + v[:-1]), (p + '_setupN', [f] + v[:-1] + [d]), get)
        same_setups(ck, 'RBJ::%s: default argument of setup' % cls, ex, p, st, q, (p + '_setup_d', [sr, f] + v[:-1]), (p + '_setupN', [n] + v[:-1] + [d]), get)
    ck.use(ex)


class Recorder:
    """stands for the order-taking setup of the size-independent base class, whose arguments are recorded"""

    def __init__(self, key):
        ns, c, fr, exr = FAM[key]
        self.name = 'Iir::%s::%sBase::setup(int%s)' % (ns, c, ', double' * (len(fr) + len(exr)))
        self.calls = []

    def __call__(self, ex, st, av):
        i = len(self.calls)
        self.calls.append((av, st.clone()))
        st.event('setup', i)
        return [sym.Outcome('ret', st), sym.Outcome('throw', st.clone(), None, 'base setup')]


def user(ck, key, N, S):
    ns, c, fr, exr = FAM[key]
    p = 'u_%s_%s_%d' % (key, SHORT[S], N)
    rec = Recorder(key)
    ex = Executor(ck.m, contracts={rec.name: rec})
    st = State()
    q, st = new(ex, st, p)
    arbitrary(ex, st, q)
    sr = fvar('sr')
    st.assume(nt(feq(sr, FC(0))))
    f = [fvar(x) for x in fr]
    e = [fvar(x) for x in exr]
    n = ivar('order')
    for fnm, args, order, freq in (('setup', [sr] + f + e, IC(N), [fdiv(x, sr) for x in f]), ('setup_o', [n, sr] + f + e, n, [fdiv(x, sr) for x in f]),
                                   ('setupN', f + e, IC(N), f), ('setupN_o', [n] + f + e, n, f)):
        s0 = st.clone()
        what = '%s::%s<%d,%s>::%s' % (ns, c, N, S, fnm)
        k = 0
        for o in run(ex, p + '_' + fnm, [q] + args, s0):
            ev = [x for x in o.st.events if x[0] == 'setup']
            if not ev:
                ck.ok('%s: designs the filter or throws' % what, o.kind == 'throw')
                ck.holds('%s: only a too high order is rejected by itself' % what, o.st.pc, ilt(IC(N), order))
                continue
            k += 1
            ck.ok('%s: one design' % what, len(ev) == 1, len(ev))
            av, at = rec.calls[ev[0][1]]
            ck.holds('%s: no order above the instantiated one' % what, o.st.pc, ile(order, IC(N)))
            b = base(ex, key, N, S, q, at)
            ck.same('%s: designs its own object' % what, o.st.pc, av[0], b)
            ck.same('%s: order' % what, o.st.pc, av[1], order)
            for nm, x, y in zip(fr + exr, av[2:], freq + e):
                ck.same('%s: %s' % (what, nm), o.st.pc, x, y)
            # nothing else happens to the object
            for at2, w in ((at, 'before'), (o.st, 'after')):
                ref = st if w == 'before' else at
                for a, (x, z) in at2.mem[q.reg].cells.items():
                    y = ref.mem[q.reg].cells.get(a)
                    if y is None or not (x is y[0] or x == y[0]):
                        ty = ir.PTR if isinstance(x, Ptr) else ir.Ty('double') if x.sort == 'f' else ir.Ty('i', 32)
                        ck.same('%s: object unchanged %s the design' % (what, w), o.st.pc, x, ex.flat_load(ref.clone(), q.reg, a, ty))
            ck.ok('%s: throws only if the design throws' % what, o.kind == 'ret' or 'base setup' in str(o.info) or o.info == 'resume', o.info)
        ck.ok('%s: reaches the design' % what, k > 0)
    ck.use(ex)


def base(ex, key, N, S, q, st):
    """the object as seen by the base class"""
    rec2 = Recorder(key)
    ex2 = ex.contracts
    ex.contracts = {rec2.name: rec2}
    try:
        run(ex, 'u_%s_%s_%d_base' % (key, SHORT[S], N), [q, ivar('n')] + [fvar('x%d' % i) for i in range(len(FAM[key][2]) + len(FAM[key][3]))], st.clone())
    finally:
        ex.contracts = ex2
    if not rec2.calls:
        raise Unsupported('base class setup of %s not found' % key)
    return rec2.calls[0][0][0]


def insts(thorough):
    out = []
    for i, k in enumerate(FAM):
        out.append((k, 2 + i % 4, STATES[i % 3]))
        if thorough:
            out.append((k, 1 + i % 9, STATES[(i + 1) % 3]))
        out.append((k, 7 + (5 * i) % 11, STATES[(i + 1) % 3]))
        for v in unusual():
            out += [(k, v + j, STATES[(i + 2 + j) % 3]) for j in (-1, 0, 1)]
    return list(dict.fromkeys(out))


def check(ck):
    ui = insts(ck.thorough)
    ck.m = core.module({'core': harness.g_core(), 'user': harness.g_user(ui)})
    for cls in RBJ:
        ck.group('RBJ::' + cls, lambda: rbj(ck, cls))
    for k, N, S in ui:
        ck.group('%s<%d>' % (k, N), lambda: user(ck, k, N, S))
    ck.contracts['setup of every RBJ class'] = 'setup(sampleRate, f, ..) has the outcome of setupN(f/sampleRate, ..); omitted arguments are 1/sqrt(2), 10 and 1'
    ck.contracts['setup/setupN of every Butterworth/Chebyshev filter'] = 'calls the size-independent setup once with the order (the instantiated one if omitted), the frequencies (divided by the sampling rate) and the other parameters; throws otherwise only for an order above the instantiated one; writes nothing else'
