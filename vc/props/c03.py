"""C03: reset() brings a filter back to its freshly constructed behaviour."""
from lib import *
from props.c02 import sections, havoc_but, user_insts


def obj(ex, p, kind):
    """constructed object with arbitrary coefficients; the coefficient cells"""
    st = State()
    q, st = new(ex, st, p)
    bs = size(ex, 'bq')
    if kind == 'state':
        b, c = biquad(ex, st)
        return q, st, b, 0, [], lambda x, s: run(ex, p + '_filter', [q, x, b], s)
    if kind == 'rbj':
        b, N = one(ex, p + '_bq', [q], st).val, 1
    else:
        b = one(ex, p + '_stages', [q], st).val
        N = ival(one(ex, p + '_max', [q], st).val)
    sections(ex, st, b, N)
    return q, st, b, N, (ival(b.off), ival(b.off) + N * bs), lambda x, s: run(ex, p + '_filter_d', [q, x], s)


def cell_equal(ck, p, kind):
    """after reset() of an object in any state every cell equals that of a constructed object"""
    ex = Executor(ck.m)
    q, st0, b, N, rng, step = obj(ex, p, kind)
    want = cells(st0, q.reg)
    st = st0.clone()
    # arbitrary delay lines: whatever is neither a coefficient nor configuration
    lo, hi = rng or (0, 0)
    keep = configuration(ex, st, q, step, lo, hi)
    havoc_but(ex, st, q, lo, hi, lambda o: o not in keep)
    for o in run(ex, p + '_reset', [q], st):
        ck.ok('%s: reset returns' % p, o.kind == 'ret')
        got = cells(o.st, q.reg)
        for a in sorted(want):
            w = want[a]
            g = ex.flat_load(o.st, q.reg, a, ir.Ty('ptr') if isinstance(w, Ptr) else ir.Ty('i', 32) if w.sort == 'i' else ir.Ty('double'))
            ck.same('%s: cell +%d after reset' % (p, a), o.st.pc, g, w)
        for a in sorted(set(got) - set(want)):
            ck.same('%s: cell +%d after reset' % (p, a), o.st.pc, got[a], ex.flat_load(st0, q.reg, a, ir.Ty('double')))
        # fills which reset has not covered still hold arbitrary values: the constructed object had zeros there
        f0 = [(x, y) for x, y, k in st0.mem[q.reg].fills if k[0] == 'zero' and not lo <= x < hi]
        for x, y in f0:
            for a in range(x, y, 8):
                if a in got or lo <= a < hi:
                    continue
                v = ex.flat_load(o.st.clone(), q.reg, a, ir.Ty('double'))
                ck.same('%s: cell +%d after reset' % (p, a), o.st.pc, v, FC(0))
        for r in o.st.mem:
            if r != q.reg and not r.startswith('@') and r in st.mem:
                ck.ok('%s: reset writes only its own object (%s)' % (p, r), o.st.mem[r] is st.mem[r] or cells(o.st, r) == cells(st, r))
    ck.use(ex)


def configuration(ex, st, q, step, lo, hi):
    """cells outside the coefficients which filtering never writes hold configuration (counts, layouts, gains)
    rather than delay lines; they stay as constructed"""
    s = st.clone()
    w0 = dict(st.mem[q.reg].cells)
    touched = set()
    cur = [s]
    for i in range(3):
        nxt = []
        for s in cur:
            for o in step(fvar('probe%d' % i), s):
                nxt.append(o.st)
                for a, (v, z) in o.st.mem[q.reg].cells.items():
                    if a not in w0 or w0[a][0] is not v:
                        touched.add(a)
        cur = nxt[:8]
    keep = set(w0) - touched
    if touched:
        a0, a1 = min(touched), max(touched)
        # everything between the first and the last delay line cell counts as delay line
        keep = {a for a in keep if not a0 <= a <= a1}
    return keep


def simulate(ck, p, kind, n=3):
    """bounded: n samples, reset, n samples; against a new object"""
    ex = Executor(ck.m)
    q, st0, b, N, rng, step = obj(ex, p, kind)
    pre = [fvar('p%d' % i) for i in range(n)]
    controls(ex, st0, q, step, *(rng or (0, 0)), lambda s: run(ex, p + '_reset', [q], s))
    post = [fvar('x%d' % i) for i in range(n + 2)]

    def feed(states, xs):
        cur = [(s, []) for s in states]
        for x in xs:
            cur = [(o.st, y + [o.val]) for s, y in cur for o in step(x, s)]
            if len(cur) > 40:
                raise Unsupported('too many paths')
        return cur
    want = feed([st0.clone()], post)
    if len(want) != 1:
        raise Unsupported('branching')
    for s, _ in feed([st0.clone()], pre):
        for o in run(ex, p + '_reset', [q], s):
            for s2, y in feed([o.st], post):
                for i, (a, w) in enumerate(zip(y, want[0][1])):
                    ck.eq('%s: sample %d after reset' % (p, i), s2.pc, a, w)
                for i in range(N):
                    for k in COEF:
                        bs = size(ex, 'bq')
                        ck.same('coefficients unchanged', s2.pc, ex.load(s2, b.plus(i * bs + ex.member('Iir::Biquad', 'm_' + k)), ir.Ty('double')), fvar('s%d.%s' % (i, k)))


def check(ck):
    Ns = sizes(ck, range(1, 7), range(1, 13), (8, 16, 33))
    ui = user_insts()
    ck.m = core.module({'core': harness.g_core(), 'cascade': harness.g_cascade(Ns), 'user': harness.g_user(ui)})
    objs = [(SHORT[S], 'state') for S in STATES] + [('rbj_' + c, 'rbj') for c in RBJ]
    objs += [('%s_%s_%d' % (pre, SHORT[S], N), 'cs') for S in STATES for pre in ('cs', 'sos') for N in Ns]
    objs += [('u_%s_%s_%d' % (k, SHORT[S], N), 'cs') for k, N, S in ui]
    for p, kind in objs:
        ck.group('%s: reset from any delay lines' % p, lambda: cell_equal(ck, p, kind), lambda: simulate(ck, p, kind),
                 '3 samples, reset, 5 samples', exact=False)
    ck.contracts['State::reset, CascadeStages<N,State>::reset, RBJbase::reset'] = \
        'whatever the delay lines, every cell of the object equals the one of a newly constructed object with the same coefficients; the coefficients are unchanged'
