"""C06: imported coefficients are used and read back as given."""
from lib import *
from props.c01 import havoc
from props.c02 import havoc_but

A = COEF


def getters(ck, ex, st, p, want, what, pc):
    for k in A:
        for o in run(ex, 'bq_' + k.upper(), [p], st):
            ck.ok('%s: get%s returns' % (what, k.upper()), o.kind == 'ret')
            ck.eq('%s: get%s' % (what, k.upper()), o.st.pc, o.val, want[k])


def section(ck):
    ex = Executor(ck.m)
    st = State()
    b = ex.new_flat(st, 'b', size(ex, 'bq'), inp=True)      # whatever was there before
    v = {k: fvar(k) for k in A}
    st.assume(nt(feq(v['a0'], FC(0))))
    outs = run(ex, 'bq_set', [b] + [v[k] for k in A], st)
    rets = [o for o in outs if o.kind == 'ret']
    for o in outs:
        if o.kind == 'throw':
            ck.holds('setCoefficients accepts every non-zero a0', o.st.pc, FALSE)
    ck.ok('setCoefficients returns', bool(rets))
    for o in rets:
        getters(ck, ex, o.st, b, v, 'setCoefficients', o.st.pc)
        ck.feasible('setCoefficients', o.st.pc)
        # the running section: a0 y2 = b0 x2 + b1 x1 + b2 x0 - a1 y1 - a2 y0
        for S in STATES:
            s0 = o.st.clone()
            d = any_state(ex, s0, S, ex.fresh('d'))
            cur = [(s0, [])]
            for i in range(3):
                cur = [(r.st, y + [r.val]) for s, y in cur for r in run(ex, SHORT[S] + '_filter', [d, fvar('x%d' % i), b], s)]
            for s, y in cur:
                ck.eq('transfer function realised by %s' % S, s.pc, v['a0'] * y[2],
                      v['b0'] * fvar('x2') + v['b1'] * fvar('x1') + v['b2'] * fvar('x0') - v['a1'] * y[1] - v['a2'] * y[0])
    ck.use(ex)


def section_bounded(ck, n=7):
    ex = Executor(ck.m)
    st = State()
    b, st = new(ex, st, 'bq')
    v = {k: fvar(k) for k in A}
    st.assume(nt(feq(v['a0'], FC(0))))
    for o in run(ex, 'bq_set', [b] + [v[k] for k in A], st):
        if o.kind == 'throw':
            ck.holds('setCoefficients accepts every non-zero a0', o.st.pc, FALSE)
            continue
        getters(ck, ex, o.st, b, v, 'setCoefficients', o.st.pc)
        for S in STATES:
            d, s0 = new(ex, o.st.clone(), SHORT[S], ex.fresh('d'))
            cur = [(s0, [])]
            for i in range(n):
                cur = [(r.st, y + [r.val]) for s, y in cur for r in run(ex, SHORT[S] + '_filter', [d, fvar('x%d' % i), b], s)]
            g = lambda l, i: l[i] if i >= 0 else FC(0)
            x = [fvar('x%d' % i) for i in range(n)]
            for s, y in cur:
                for i in range(n):
                    ck.eq('transfer function realised by %s, sample %d' % (S, i), s.pc, v['a0'] * y[i],
                          v['b0'] * x[i] + v['b1'] * g(x, i - 1) + v['b2'] * g(x, i - 2) - v['a1'] * g(y, i - 1) - v['a2'] * g(y, i - 2))


def sos(ck, p, N, how):
    ex = Executor(ck.m)
    st = State()
    m = ex.new_flat(st, 'matrix', N * 48, inp=True)
    ex.regs['matrix'].writable = False
    rows = [[ex.load(st, m.plus(48 * i + 8 * j), ir.Ty('double')) for j in range(6)] for i in range(N)]
    for r in rows:
        st.assume(nt(feq(r[3], FC(0))))
    if how == 'ctor':
        q = region(ex, st, p)
        outs = run(ex, p + '_newsos', [q, m], st)
    else:
        q, st = new(ex, st, p)
        # whatever was loaded and filtered before
        havoc_but(ex, st, q, 0, 0)
        outs = run(ex, p + '_setup', [q, m], st)
    n = 0
    for o in outs:
        if o.kind == 'throw':
            ck.holds('%s accepts every matrix with non-zero a0' % how, o.st.pc, FALSE)
            continue
        n += 1
        b = one(ex, p + '_stages', [q], o.st).val
        for i in range(N):
            w = dict(zip(('b0', 'b1', 'b2', 'a0', 'a1', 'a2'), rows[i]))
            getters(ck, ex, o.st, b.plus(i * size(ex, 'bq')), w, '%s(sos) row %d' % (how, i), o.st.pc)
    ck.ok('%s returns' % how, n > 0)
    ck.use(ex)


def use(ck, p, N):
    """the loaded rows are what filter() runs: one section at a time is active, the others pass through"""
    ex = Executor(ck.m)
    S = p.split('_')[1]
    for i in range(N):
        st = State()
        m = ex.new_flat(st, ex.fresh('matrix'), N * 48)
        v = {k: fvar(k) for k in A}
        for j in range(N):
            row = [v[k] for k in ('b0', 'b1', 'b2', 'a0', 'a1', 'a2')] if i == j else [literal(x) for x in (1., 0., 0., 1., 0., 0.)]
            for k, t in enumerate(row):
                ex.store(st, m.plus(48 * j + 8 * k), ir.Ty('double'), t)
        st.assume(nt(feq(v['a0'], FC(0))))
        q, st = new(ex, st, p, ex.fresh(p))
        for o in run(ex, p + '_setup', [q, m], st):
            if o.kind != 'ret':
                continue
            cur = [(o.st, [])]
            for t in range(4):
                cur = [(r.st, y + [r.val]) for s, y in cur for r in run(ex, p + '_filter_d', [q, fvar('x%d' % t)], s)]
            g = lambda l, i: l[i] if i >= 0 else FC(0)
            x = [fvar('x%d' % t) for t in range(4)]
            for s, y in cur:
                for t in range(4):
                    ck.eq('row %d is the section which runs, sample %d' % (i, t), s.pc, v['a0'] * y[t],
                          v['b0'] * x[t] + v['b1'] * g(x, t - 1) + v['b2'] * g(x, t - 2) - v['a1'] * g(y, t - 1) - v['a2'] * g(y, t - 2))


def check(ck):
    Ns = sizes(ck, range(1, 7), range(1, 13), (8, 16, 33))
    ck.m = core.module({'core': harness.g_core(), 'cascade': harness.g_cascade(Ns)})
    ck.group('Biquad::setCoefficients', lambda: section(ck), lambda: section_bounded(ck), '7 samples after construction', exact=False)
    for S in STATES:
        for N in Ns:
            p = 'sos_%s_%d' % (SHORT[S], N)
            ck.group('%s: setup(sos) on any object' % p, lambda: sos(ck, p, N, 'setup'))
            ck.group('%s: constructor(sos)' % p, lambda: sos(ck, p, N, 'ctor'))
            if N <= 4:
                ck.group('%s: loaded sections run' % p, lambda: use(ck, p, N))
            ck.group('cs_%s_%d: setup(sos) on any object' % (SHORT[S], N), lambda: sos(ck, 'cs_%s_%d' % (SHORT[S], N), N, 'setup'))
    ck.contracts['Iir::Biquad::setCoefficients'] = 'requires a0 != 0; ensures getXi() == xi for all six and, for each structure and any delay lines, a0 y2 = b0 x2 + b1 x1 + b2 x0 - a1 y1 - a2 y0'
    ck.contracts['CascadeStages<N,State>::setup / SOSCascade<N,State>(sos)'] = 'for any previous contents: section i reads back row i as b0,b1,b2,a0,a1,a2'
    ck.assumptions.append('the "loaded sections run" obligations cover four samples; the step for any history is C01/C02')
