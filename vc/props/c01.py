"""C01: every filter structure computes the second-order difference equation."""
from lib import *

TITLE = 'difference equation'


def spec(c, x, y, n):
    """the difference equation at time n with zero past"""
    g = lambda s, i: s[i] if i >= 0 else FC(0)
    return (c['b0'] * g(x, n) + c['b1'] * g(x, n - 1) + c['b2'] * g(x, n - 2)
            - c['a1'] * g(y, n - 1) - c['a2'] * g(y, n - 2))


def simulate(ck, ex, step, st, c, n0, n, x=None):
    """n steps; the outputs from time n0 on have to satisfy the equation"""
    x = x or [fvar('x%d' % i) for i in range(n)]
    todo = [(st, [])]
    for i in range(n):
        nxt = []
        for s, y in todo:
            for o in step(x[i], s):
                if o.kind != 'ret':
                    ck.ok('filter does not throw', smt.entails(o.st.pc, FALSE))
                    continue
                nxt.append((o.st, y + [o.val]))
        todo = nxt
        if len(todo) > 64:
            raise Unsupported('too many paths')
    for s, y in todo:
        for k in range(n0, n):
            # expressed in the outputs the code itself returned
            ys = [fvar('y%d' % i) for i in range(n)]
            ck.eq('output at step %d obeys the difference equation' % k, s.pc, y[k], spec(c, x, y, k))
    if not todo:
        raise Unsupported('no path')


def parts(m, p, entry):
    """a filter with one section: executor, object, state, step, coefficients, section, reset"""
    ex = Executor(m)
    st = State()
    q, st = new(ex, st, p)
    b = one(ex, p + entry, [q], st).val
    c = {}
    for k in COEF:
        v = fvar('s.' + k)
        ex.store(st, b.plus(ex.member('Iir::Biquad', 'm_' + k)), ir.Ty('double'), v)
        c[k] = v
    return ex, q, st, lambda x, st: run(ex, p + '_filter_d', [q, x], st), c, b, lambda x: run(ex, p + '_reset', [q], x)


def section(ck, m, p, entry, n0, n, arbitrary):
    ex, q, st, step, c, b, reset = parts(m, p, entry)
    if arbitrary:
        havoc(ex, st, q, b)
    else:
        lo = ival(b.off)
        controls(ex, st, q, step, lo, lo + size(ex, 'bq'), reset)
    simulate(ck, ex, step, st, c, n0, n)
    ck.use(ex)


def stronger(ck, make):
    """the three-step obligation for objects with indices or flags (each value these can have), else, for a section whose step is
    linear in its d delay line cells, the equation for d + 5 samples after construction: what the outputs deviate from the
    equation is the output of a linear system with d + 4 state variables, which vanishes if its first d + 5 values vanish
    (Cayley-Hamilton, lemmas/Recurrence.lean)"""
    ex, q, st, step, c, b, reset = make()
    lo, hi = (0, 0) if b is None else (ival(b.off), ival(b.off) + size(ex, 'bq'))
    ctl = controls(ex, st, q, step, lo, hi, reset)
    if len(ctl) > 1:
        for e in ctl:
            s = st.clone()
            havoc(ex, s, q, b)
            put_control(s, q, e)
            simulate(ck, ex, step, s, c, 2, 3)
        ck.use(ex)
        return
    s = st.clone()
    havoc(ex, s, q, b)
    coef = {v.args[0] for v in c.values()}
    outs = step(fvar('x'), s)
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise Unsupported('branching')
    o = outs[0]
    n = 0
    V = {'x'} | {'%s+%d' % (q.reg, a) for a in range(ex.regs[q.reg].size)}
    for a, (v, z) in [(None, (o.val, 8))] + sorted(o.st.mem[q.reg].cells.items()):
        if a is not None and lo <= a < hi or not isinstance(v, T) or v.sort != 'f':
            continue
        n += a is not None
        ck.ok('%s is linear in sample and delay lines' % ('output' if a is None else 'cell +%d' % a), is_linear(v, V) and free(v) <= V | coef)
    if n > 24:
        raise Unsupported('%d cells' % n)
    import laws
    laws.standalone(ck, 'Recurrence.lean', 'response_zero')
    simulate(ck, ex, step, st, c, 0, n + 5)
    # the same after a reset
    for o in reset(s):
        simulate(ck, ex, step, o.st, c, 0, n + 5)
    ck.use(ex)


def check(ck):
    m = mod('core', 'cascade')
    for S in STATES:
        p = SHORT[S]
        for entry in ('filter', 'bfilter'):
            def stepper(ex, s, b):
                return lambda x, st: run(ex, '%s_%s' % (p, entry), [s, x, b], st)

            def inductive():
                ex = Executor(m)
                st = State()
                b, c = biquad(ex, st)
                s = any_state(ex, st, S)
                simulate(ck, ex, stepper(ex, s, b), st, c, 2, 3)
                ck.use(ex)

            def constructed():
                ex = Executor(m)
                st = State()
                b, c = biquad(ex, st)
                s, st = fresh_state(ex, st, S)
                return ex, s, st, stepper(ex, s, b), c, None, lambda x: run(ex, p + '_reset', [s], x)

            def initial(start):
                ex = Executor(m)
                st = State()
                b, c = biquad(ex, st)
                s, st = fresh_state(ex, st, S)
                if start == 'reset':
                    s = any_state(ex, st, S, 'd2')
                    st = one(ex, p + '_reset', [s], st).st
                simulate(ck, ex, stepper(ex, s, b), st, c, 0, 2)
                ck.use(ex)

            def bounded(start='fresh', n=9):
                ex = Executor(m)
                st = State()
                b, c = biquad(ex, st)
                s, st = fresh_state(ex, st, S)
                controls(ex, st, s, stepper(ex, s, b), 0, 0, lambda x: run(ex, p + '_reset', [s], x))
                simulate(ck, ex, stepper(ex, s, b), st, c, 0, n)
            ck.group('%s::filter (%s): any step from any delay lines' % (S, entry), inductive, bounded, '9 samples after construction', exact=False, retry=lambda: stronger(ck, constructed))
            ck.group('%s::filter (%s): first two samples after construction' % (S, entry), lambda: initial('fresh'))
            if entry == 'filter':
                ck.group('%s::filter: first two samples after reset' % S, lambda: initial('reset'), lambda: bounded('reset'),
                         '9 samples after construction', exact=False)
        ck.contracts['Iir::%s::filter' % S] = 'for any delay lines: y2 = b0 x2 + b1 x1 + b2 x0 - a1 y1 - a2 y0 over three consecutive calls; from new/reset delay lines y0 = b0 x0, y1 = b0 x1 + b1 x0 - a1 y0'

    # the section inside the user-visible filters
    for S in STATES:
        for pre in ('cs', 'sos'):
            p = '%s_%s_1' % (pre, SHORT[S])

            def single(n0, n, arbitrary):
                section(ck, m, p, '_stages', n0, n, arbitrary)
            ck.group('%s<1,%s>::filter: any step' % (pre, S), lambda: single(2, 3, True), lambda: single(0, 9, False), '9 samples', exact=False,
                     retry=lambda: stronger(ck, lambda: parts(m, p, '_stages')))
            ck.group('%s<1,%s>::filter: first samples' % (pre, S), lambda: single(0, 2, False))
    for c_ in list(RBJ):
        p = 'rbj_' + c_

        def rbj(n0, n, arbitrary):
            section(ck, m, p, '_bq', n0, n, arbitrary)
        ck.group('RBJ::%s::filter: any step' % c_, lambda: rbj(2, 3, True), lambda: rbj(0, 9, False), '9 samples', exact=False,
                 retry=lambda: stronger(ck, lambda: parts(m, p, '_bq')))
        ck.group('RBJ::%s::filter: first samples' % c_, lambda: rbj(0, 2, False))
    ck.notes.append('The three-step obligation holds for arbitrary delay lines, hence at every point of every history; with the '
                    'obligations for the first two samples it gives the difference equation for all n by induction on the history. '
                    'Equality of the three structures is a corollary.')


def havoc(ex, st, q, b):
    """replace every initialised non-pointer cell outside the section b by a fresh symbol of its kind"""
    lo, hi = (ival(b.off), ival(b.off) + size(ex, 'bq')) if b is not None else (0, 0)
    fl = st.wr(q.reg)
    for o, (v, z) in list(fl.cells.items()):
        if lo <= o < hi or isinstance(v, Ptr):
            continue
        if isinstance(v, T) and v.sort == 'f':
            fl.cells[o] = (fvar('%s+%d' % (q.reg, o)), z)
        elif isinstance(v, T) and v.sort == 'i':
            fl.cells[o] = (ivar('%s+%d' % (q.reg, o)), z)
    fl.fills = [(lo_, hi_, ('input', q.reg, 0) if k[0] == 'zero' else k) for lo_, hi_, k in fl.fills]
    for i, (lo_, hi_, k) in enumerate(fl.fills):
        if k[0] == 'input':
            fl.fills[i] = (lo_, hi_, ('input', q.reg, lo_))
