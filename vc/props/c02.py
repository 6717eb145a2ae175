"""C02: a cascade passes each sample through all sections, in order, once."""
from lib import *
from props.c01 import havoc


def setup(ex, p, cls):
    """an object with arbitrary coefficients and delay lines; returns (pointer, state, stages pointer, offset of the delay lines)"""
    st = State()
    q, st = new(ex, st, p)
    b = one(ex, p + '_stages', [q], st).val
    N = ival(one(ex, p + '_max', [q], st).val)
    bs = size(ex, 'bq')
    sections(ex, st, b, N)
    havoc_but(ex, st, q, ival(b.off), ival(b.off) + N * bs)
    return q, st, b, N


def sections(ex, st, b, N, name='s'):
    bs = size(ex, 'bq')
    cs = []
    for i in range(N):
        c = {}
        for k in COEF:
            v = fvar('%s%d.%s' % (name, i, k))
            ex.store(st, b.plus(i * bs + ex.member('Iir::Biquad', 'm_' + k)), ir.Ty('double'), v)
            c[k] = v
        cs.append(c)
    return cs


def havoc_but(ex, st, q, lo, hi, only=None):
    fl = st.wr(q.reg)
    for o, (v, z) in list(fl.cells.items()):
        if lo <= o < hi or isinstance(v, Ptr) or only and not only(o):
            continue
        if isinstance(v, T) and v.sort == 'f':
            fl.cells[o] = (fvar('%s+%d' % (q.reg, o)), z)
        elif isinstance(v, T) and v.sort == 'i':
            fl.cells[o] = (ivar('%s+%d' % (q.reg, o)), z)
    fl.fills = [(a, b, ('input', q.reg, a)) if k[0] == 'zero' and not (lo <= a < hi) else (a, b, k) for a, b, k in fl.fills]


def state_offset(ex, p, q, st, S, N, b):
    """where the delay lines of section i are inside the object"""
    cls = 'CascadeStages<%d, Iir::%s>' % (N, S)
    for c in list(ex.mod.members):
        if c.endswith(cls):
            base = ival(b.off) - ex.member(c, 'm_stages')
            return base + ex.member(c, 'm_states')
    raise Unsupported('delay lines of %s not found' % cls)


def slices(ex, st, q, off, S, N):
    ss = size(ex, SHORT[S])
    out = []
    for i in range(N):
        r = ex.new_flat(st, 'line%d' % i, ss, inp=True)
        lo = off + i * ss
        src = st.mem[q.reg]
        st.mem[r.reg] = sym.Flat({o - lo: v for o, v in src.cells.items() if lo <= o < lo + ss},
                                 [(0, ss, ('input', q.reg, lo))])
        out.append(r)
    return out


def kind(v, z):
    """the type of a cell with value v of z bytes"""
    return ir.Ty('ptr') if isinstance(v, Ptr) else ir.Ty('i', 8 * z) if v.sort in 'ib' else ir.Ty('double')


def step(ck, p, S, smp='d'):
    ex = Executor(ck.m)
    q, st, b, N = setup(ex, p, S)
    off = state_offset(ex, p, q, st, S, N, b)
    # start from fully symbolic lines
    ss = size(ex, SHORT[S])
    fl = st.wr(q.reg)
    for o in [o for o in fl.cells if off <= o < off + N * ss]:
        del fl.cells[o]
    fl.fills.append((off, off + N * ss, ('input', q.reg, off)))
    x = fvar('x')
    before = cells(st, q.reg)
    st2 = st.clone()
    lines = slices(ex, st2, q, off, S, N)
    bs = size(ex, 'bq')
    outs = run(ex, p + '_filter_d', [q, x], st)
    v = x
    s = st2
    for i in range(N):
        o = one(ex, SHORT[S] + '_filter', [lines[i], v, b.plus(i * bs)], s)
        v, s = o.val, o.st
    for o in outs:
        ck.ok('%s: returns' % p, o.kind == 'ret')
        ck.eq('%s: output is the composition of the sections' % p, o.st.pc, o.val, v)
        for i in range(N):
            r = s.mem[lines[i].reg]
            for a, (w, z) in sorted(r.cells.items()):
                got = ex.flat_load(o.st, q.reg, off + i * ss + a, kind(w, z))
                ck.same('%s: delay lines of section %d (+%d) advance once' % (p, i, a), o.st.pc, got, w)
        for a, (w, z) in sorted(o.st.mem[q.reg].cells.items()):
            if off <= a < off + N * ss:
                i, r = divmod(a - off, ss)
                if r not in s.mem[lines[i].reg].cells:
                    ck.same('%s: untouched delay line cell' % p, o.st.pc, w, ex.default(q.reg, a, ir.Ty('double')))
                continue
            ck.same('%s: cell +%d outside the delay lines is unchanged' % (p, a), o.st.pc, w, before[a] if a in before else ex.default(q.reg, a, ir.Ty('double') if not isinstance(w, T) or w.sort == 'f' else ir.Ty('i', 32)))
    ck.feasible(p, outs[0].st.pc)
    ck.use(ex)


def simulate(ck, p, S, n=4, freshctor=True):
    """bounded: n samples after construction against n single sections"""
    ex = Executor(ck.m)
    st = State()
    q, st = new(ex, st, p)
    b = one(ex, p + '_stages', [q], st).val
    N = ival(one(ex, p + '_max', [q], st).val)
    sections(ex, st, b, N)
    lo = ival(b.off)
    controls(ex, st, q, lambda x, s: run(ex, p + '_filter_d', [q, x], s), lo, lo + N * size(ex, 'bq'), lambda s: run(ex, p + '_reset', [q], s))
    lines = []
    for i in range(N):
        l, st = new(ex, st, SHORT[S], 'line%d' % i)
        lines.append(l)
    bs = size(ex, 'bq')
    cur = [(st, [])]
    xs = [fvar('x%d' % i) for i in range(n)]
    s = st.clone()
    want = []
    for x in xs:
        v = x
        for i in range(N):
            o = one(ex, SHORT[S] + '_filter', [lines[i], v, b.plus(i * bs)], s)
            v, s = o.val, o.st
        want.append(v)
    for i, x in enumerate(xs):
        cur2 = []
        for st, ys in cur:
            for o in run(ex, p + '_filter_d', [q, x], st):
                ck.ok('returns', o.kind == 'ret')
                ck.eq('%s: sample %d' % (p, i), o.st.pc, o.val, want[i])
                cur2.append((o.st, ys))
        cur = cur2
    for st, _ in cur:
        for i in range(N):
            for k in COEF:
                a = ex.load(st, b.plus(i * bs + ex.member('Iir::Biquad', 'm_' + k)), ir.Ty('double'))
                ck.same('coefficients unchanged', st.pc, a, fvar('s%d.%s' % (i, k)))


def initial(ck, p, S):
    """all delay lines of a new filter are those of a new section"""
    ex = Executor(ck.m)
    st = State()
    q, st = new(ex, st, p)
    b = one(ex, p + '_stages', [q], st).val
    N = ival(one(ex, p + '_max', [q], st).val)
    off = state_offset(ex, p, q, st, S, N, b)
    l, st = new(ex, st, SHORT[S], 'line')
    ss = size(ex, SHORT[S])
    for i in range(N):
        for a in sorted(st.mem['line'].cells):
            ck.same('%s: initial delay lines of section %d' % (p, i), st.pc, ex.flat_load(st, q.reg, off + i * ss + a, kind(*st.mem['line'].cells[a])),
                    st.mem['line'].cells[a][0])
        if not st.mem['line'].cells:
            for a in range(0, ss, 8):
                ck.same('%s: initial delay lines of section %d' % (p, i), st.pc, ex.flat_load(st, q.reg, off + i * ss + a, ir.Ty('double')),
                        ex.flat_load(st, 'line', a, ir.Ty('double')))


def user_insts(large=True):
    out = []
    for i, k in enumerate(FAM):
        out.append((k, 2 + i % 2, STATES[i % 3]))
        if large:
            out.append((k, 7 + (5 * i) % 11, STATES[(i + 1) % 3]))
        for v in unusual():
            out += [(k, v + j, STATES[(i + 2 + j) % 3]) for j in (-1, 0, 1)]
    return list(dict.fromkeys(out))


def check(ck):
    Ns = sizes(ck, range(1, 7), range(1, 13), (8, 16, 33))
    ui = user_insts()
    ck.m = core.module({'core': harness.g_core(), 'cascade': harness.g_cascade(Ns), 'user': harness.g_user(ui)})
    for S in STATES:
        for pre in ('cs', 'sos'):
            for N in Ns:
                p = '%s_%s_%d' % (pre, SHORT[S], N)
                ck.group(p + ': one sample from any delay lines', lambda: step(ck, p, S), lambda: simulate(ck, p, S), '4 samples after construction', exact=False)
                ck.group(p + ': initial delay lines', lambda: initial(ck, p, S), lambda: simulate(ck, p, S), '4 samples after construction', exact=False)
    for k, N, S in ui:
        p = 'u_%s_%s_%d' % (k, SHORT[S], N)
        ck.group(p + ': one sample from any delay lines', lambda: step(ck, p, S), lambda: simulate(ck, p, S), '4 samples after construction', exact=False)
        ck.group(p + ': initial delay lines', lambda: initial(ck, p, S), lambda: simulate(ck, p, S), '4 samples after construction', exact=False)
    ck.contracts['Iir::CascadeStages<N,State>::filter'] = 'returns S_N(...S_1(x)), advances the delay lines of every section once and leaves every other cell of the object unchanged, from any delay lines'
    ck.notes.append('Instantiations: CascadeStages and SOSCascade for N in %s, and one instantiation of each of the 21 Butterworth/Chebyshev filters.' % (Ns,))
