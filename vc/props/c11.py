"""C11: a setup that returns normally leaves no NaN coefficient. Everything here is in IEEE doubles (mode F)."""
import math
import time
from kernel import *
from props.c10 import ieee
import props.c15 as c15

BQ = 'Iir::Biquad::'


def number(v):
    return nt(fisnan(v))


def not_nan(ck, what, pc, c):
    """no member of c (a dictionary of terms) is NaN"""
    for k, v in c.items():
        g = number(v)
        t = time.time()
        if g is TRUE or g in pc:
            ck.add('%s: %s is not NaN' % (what, k), 'proved', 'syntactic')
            continue
        # the conditions which speak about NaN and infinity first
        few = [x for x in pc if 'isnan' in repr(x) or 'isinf' in repr(x)]
        r = smt.check(few + [fisnan(v)], 5000) == 'unsat' or smt.check(list(pc) + [fisnan(v)], 20000) == 'unsat'
        r = r or smt.ieee_check(list(pc) + [fisnan(v)]) == 'unsat'
        if r:
            ck.add('%s: %s is not NaN' % (what, k), 'proved', 'z3', time.time() - t)
        else:
            ck.undecided('%s: %s is not NaN' % (what, k), 'NaN is possible on a path which returns')




class Numbers:
    """contract of the members which set a section: they throw, or leave a section whose coefficients are numbers and whose a0 is
    finite and not zero. The values they leave are those of a ghost array of such sections."""
    names = ['setCoefficients(double, double, double, double, double, double)', 'setIdentity()', 'setOnePole(std::complex<double>, std::complex<double>)',
             'setTwoPole(std::complex<double>, std::complex<double>, std::complex<double>, std::complex<double>)',
             'setPoleZeroPair(Iir::PoleZeroPair const&)', 'setPoleZeroForm(Iir::BiquadPoleState const&)']

    def __init__(self, ex, names=None, scale=True):
        self.ex = ex
        self.pre = []
        self.scale_calls = 0
        c = dict(ex.contracts)
        for n in names or self.names:
            c[BQ + n] = self.set
        if scale:
            c[BQ + 'applyScale(double)'] = self.scale
        ex.contracts = c

    def write(self, st, p, tag, which):
        ex = self.ex
        r = ex.regs[p.reg]
        for k in which:
            o = ex.member('Iir::Biquad', 'm_' + k)
            if r.kind == 'array':
                g = 'num:%s:%s' % (tag, p.reg)
                if g not in st.mem:
                    if g not in ex.regs:
                        ex.new_array(st, g, ex.mod.named('class.Iir::Biquad'), r.length)
                    else:
                        st.mem[g] = sym.Arr({a: ('base', '%s.%d' % (g, a)) for a in st.mem[p.reg].leaf})
                v = ex.load(st, Ptr(g, p.plus(o).off), F64)
            else:
                v = fvar(ex.fresh('num:%s.%s' % (tag, k)))
                st.assume(number(v))
                if k == 'a0':
                    st.assume(an(nt(feq(v, FC(0))), nt(finf(v))))
            ex.store(st, p.plus(o), F64, v)

    def set(self, ex, st, av):
        bad = st.clone()
        self.write(st, av[0], 'set', COEF)
        return [sym.Outcome('ret', st), sym.Outcome('throw', bad, None, 'by setCoefficients')]

    def scale(self, ex, st, av):
        self.scale_calls += 1
        s = st.clone()
        self.pre.append((s, {k: ex.load(s, av[0].plus(ex.member('Iir::Biquad', 'm_' + k)), F64) for k in COEF}))
        bad = st.clone()
        self.write(st, av[0], 'scale', ('b0', 'b1', 'b2'))
        return [sym.Outcome('ret', st), sym.Outcome('throw', bad, None, 'by applyScale')]


def ghosts(vals, a0=None):
    """what the ghost arrays promise about the elements occurring in vals"""
    r = []
    for x in {a for v in vals for a in tm.atoms_of(v, lambda x: x.op not in ('fc',) and 'num:' in repr(x))}:
        r += [number(x), nt(feq(x, FC(0))), nt(finf(x))] if x is a0 else [number(x)]
    return tuple(r)


def finf(x):
    return orr(feq(x, FC(math.inf)), feq(x, FC(-math.inf)))


def invariant(st, c):
    for k, v in c.items():
        st.assume(number(v))
    st.assume(an(nt(feq(c['a0'], FC(0))), nt(finf(c['a0']))))


def biquad_members(ck):
    """each member against the contract"""
    calls = [('set', 6, 'setCoefficients'), ('onepole', 4, 'setOnePole'), ('twopole', 8, 'setTwoPole'), ('identity', 0, 'setIdentity'), ('scale', 1, 'applyScale')]
    for fnm, k, nm in calls:
        with ieee():
            ex = Executor(ck.m)
            if fnm in ('onepole', 'twopole'):
                Numbers(ex, Numbers.names[:1])
            st = State()
            b, c = biquad(ex, st)
            if fnm == 'scale':
                invariant(st, c)
            n = 0
            for o in run(ex, 'bq_' + fnm, [b] + [fvar('x%d' % i) for i in range(k)], st):
                if o.kind == 'ret':
                    n += 1
                    section(ck, 'Biquad::' + nm, ex, o.st, b)
            ck.ok('Biquad::%s: returns' % nm, n > 0)
            ck.use(ex)
    # the constructor
    with ieee():
        ex = Executor(ck.m)
        st = State()
        b, st = new(ex, st, 'bq')
        section(ck, 'Biquad::Biquad', ex, st, b)
        ck.use(ex)


def section(ck, what, ex, st, b):
    c = raw(ex, st, b)
    g = ghosts(c.values(), c['a0'])
    not_nan(ck, what, st.pc + g, c)
    a0 = c['a0']
    ck.holds('%s: a0 is finite and not zero' % what, st.pc + g, an(nt(feq(a0, FC(0))), nt(finf(a0))))


def pair(ck):
    """setPoleZeroPair and setPoleZeroForm of any contents"""
    for fnm, what in (('pair', 'setPoleZeroPair'), ('form', 'setPoleZeroForm')):
        with ieee():
            ex = Executor(ck.m)
            Numbers(ex, Numbers.names[:1])
            st = State()
            b, c = biquad(ex, st)
            q = ex.new_flat(st, 'pair', size(ex, {'pair': 'pair', 'form': 'bps'}[fnm]), inp=True)
            n = 0
            for o in run(ex, 'bq_' + fnm, [b, q], st):
                if o.kind == 'ret':
                    n += 1
                    section(ck, 'Biquad::' + what, ex, o.st, b)
            ck.ok('Biquad::%s: returns' % what, n > 0)
            ck.use(ex)


def getters(ck):
    """of a section with numbers, a0 finite and not zero, every getter returns a number"""
    with ieee():
        ex = Executor(ck.m)
        st = State()
        b, c = biquad(ex, st)
        invariant(st, c)
        for k in COEF:
            o = one(ex, 'bq_' + k.upper(), [b], st.clone())
            not_nan(ck, 'Biquad::get' + k.upper(), o.st.pc, {k: o.val})
        ck.use(ex)


def fixed(ck, p, calls, bqf=None):
    for fnm, k in calls:
        with ieee():
            ex = Executor(ck.m)
            Numbers(ex)
            st = State()
            q, st = new(ex, st, p)
            arbitrary(ex, st, q)
            n = 0
            for o in run(ex, '%s_%s' % (p, fnm), [q] + [fvar('x%d' % i) for i in range(k)], st):
                if o.kind == 'ret':
                    n += 1
                    section(ck, '%s: %s' % (p, fnm), ex, o.st, one(ex, p + '_bq', [q], o.st.clone()).val)
            ck.ok('%s: %s returns' % (p, fnm), n > 0)
            ck.use(ex)


def sos(ck, p, N):
    with ieee():
        ex = Executor(ck.m)
        Numbers(ex)
        st = State()
        q, st = new(ex, st, p)
        arbitrary(ex, st, q)
        m = ex.new_flat(st, 'sos', 48 * N, inp=True)
        for fnm in ('setup',) + (('newsos',) if 'sos' in p else ()):
            n = 0
            for o in run(ex, '%s_%s' % (p, fnm), [q, m], st.clone()):
                if o.kind == 'ret':
                    n += 1
                    b = one(ex, p + '_stages', [q], o.st.clone()).val
                    for i in range(N):
                        section(ck, '%s: %s: section %d' % (p, fnm, i), ex, o.st, b.plus(i * size(ex, 'bq')))
            ck.ok('%s: %s returns' % (p, fnm), n > 0)
        ck.use(ex)


class AnyResponse:
    name = 'Iir::Cascade::response(double) const'

    def __call__(self, ex, st, av):
        bad = st.clone()
        return [sym.Outcome('ret', st, (fvar(ex.fresh('Rr')), fvar(ex.fresh('Ri')))), sym.Outcome('throw', bad, None, 'by response')]


def set_layout(ck, N=None):
    what = 'Cascade::setLayout'
    with ieee():
        ex = Executor(ck.m)
        ex.contracts = {AnyResponse.name: AnyResponse()}
        nb = Numbers(ex)
        st = State()
        q, arr, M, n0, st = cascade(ex, st, M=IC(N) if N else None)
        l, pr, cap, np, st = layout(ex, st, cap=IC(2 * N) if N else None)
        n = 0
        for o in run(ex, 'cas_layout', [q, l], st):
            if o.kind != 'ret':
                continue
            n += 1
            cnt = one(ex, 'cas_num', [q], o.st.clone()).val
            for i, s in entries(o.st, M, N):
                for cnd in (ilt(i, cnt), ile(cnt, i)):
                    s2 = s.clone()
                    s2.assume(cnd)
                    if smt.feasible(s2.pc):
                        section(ck, '%s: section %s' % (what, '0' if i is IC(0) else 'i'), ex, s2, stage(ex, arr, i))
        ck.ok('%s: returns' % what, n > 0)
        for s, c in nb.pre:
            not_nan(ck, '%s: applyScale gets a section of numbers' % what, s.pc + ghosts(c.values()), c)
        ck.use(ex)


def setup(ck, key):
    """setup returns only after setLayout has returned, and touches no coefficient afterwards"""
    with ieee():
        S = contracts.Setup(ck, key)
        v = S.s.v
        n = 0
        for o in S.outs:
            if o.kind != 'ret':
                continue
            n += 1
            c = S.calls(o)
            ck.ok('%s: ends with setLayout' % key, bool(c) and c[-1][0] == 'layout', [x[0] for x in c])
            i = len([x for x in S.s.calls])
            cq = c[-1][1]
            sp = ex_load(S.ex, o.st, cq, v)
            ck.ok('%s: the sections belong to the filter' % key, sp.reg == S.d['stages'].reg, repr(sp))
            m = o.st.mem[sp.reg]
            ck.ok('%s: the sections are left as setLayout made them' % key, all(ch[0] == 'base' and ch[1].startswith('L') for ch in m.leaf.values()), str(m.leaf)[:200])
        ck.ok('%s: returns' % key, n > 0)


def ex_load(ex, st, q, v):
    return ex.load(st.clone(), q.plus(v.stages), ir.PTR)


def user(ck, key, N, S):
    """the overloads of an instantiated filter touch no coefficient after the base class setup"""
    p = 'u_%s_%s_%d' % (key, SHORT[S], N)
    ns, c, fr, exr = FAM[key]
    with ieee():
        rec = c15.Recorder(key)
        ex = Executor(ck.m, contracts={rec.name: rec})
        st = State()
        q, st = new(ex, st, p)
        b = one(ex, p + '_stages', [q], st.clone()).val
        m = ival(one(ex, p + '_max', [q], st.clone()).val)
        for i in range(m):
            section(ck, '%s: after construction, section %d' % (p, i), ex, st, b.plus(i * size(ex, 'bq')))
        arbitrary(ex, st, q)
        lo = ival(b.off)
        hi = lo + m * size(ex, 'bq')
        par = [fvar(x) for x in fr + exr]
        for fnm, a in (('setup', [fvar('sr')]), ('setup_o', [ivar('order'), fvar('sr')]), ('setupN', []), ('setupN_o', [ivar('order')])):
            n = 0
            for o in run(ex, '%s_%s' % (p, fnm), [q] + a + par, st.clone()):
                if o.kind != 'ret':
                    continue
                n += 1
                ev = [x for x in o.st.events if x[0] == 'setup']
                ck.ok('%s: %s returns after a design only' % (p, fnm), len(ev) >= 1, len(ev))
                if ev:
                    at_ = rec.calls[ev[-1][1]][1]
                    same = all(o.st.mem[q.reg].cells.get(x) == at_.mem[q.reg].cells.get(x) or o.st.mem[q.reg].cells[x][0] is ex.flat_load(at_.clone(), q.reg, x, F64)
                               for x in o.st.mem[q.reg].cells if lo <= x < hi)
                    ck.ok('%s: %s touches no coefficient after the design' % (p, fnm), same)
            ck.ok('%s: %s returns' % (p, fnm), n > 0)
        ck.use(ex)


def check(ck):
    Ns = sizes(ck, range(1, 4), range(1, 9), (8,))
    ui = c15.insts(ck.thorough)
    ck.m = core.module({'core': harness.g_core(), 'open': harness.g_open(), 'cascade': harness.g_cascade(Ns), 'user': harness.g_user(ui)})
    ck.group('Biquad', lambda: biquad_members(ck))
    ck.group('Biquad: poles and zeros', lambda: pair(ck))
    ck.group('Biquad: getters', lambda: getters(ck))
    for cls in RBJ:
        k = len(RBJ[cls][0])
        ck.group('RBJ::' + cls, lambda: fixed(ck, 'rbj_' + cls, [('setupN', 1 + k), ('setup', 2 + k)]))
    for cls, k in (('OnePole', 3), ('TwoPole', 5)):
        ck.group('Custom::' + cls, lambda: fixed(ck, 'cu_' + cls, [('setup', k)]))
    for S in STATES[:1] if not ck.thorough else STATES:
        for N in Ns:
            for pre in ('cs', 'sos'):
                ck.group('%s_%d' % (pre, N), lambda: sos(ck, '%s_%s_%d' % (pre, SHORT[S], N), N))
    ck.group('Cascade::setLayout', lambda: set_layout(ck), lambda: [set_layout(ck, N) for N in (1, 2, 3)], 'up to 3 sections', exact=False)
    for key in FAM:
        ck.group('%s::setup' % key, lambda: setup(ck, key))
    for k, N, S in ui:
        ck.group('%s<%d>' % (k, N), lambda: user(ck, k, N, S))
    ck.contracts['Biquad::setCoefficients, setIdentity, setOnePole, setTwoPole, setPoleZeroPair, setPoleZeroForm'] = 'throws, or leaves six coefficients which are not NaN and an a0 which is finite and not zero; any doubles'
    ck.contracts['Biquad::applyScale'] = 'throws, or keeps a section of numbers a section of numbers; any double'
    ck.contracts['Cascade::setLayout'] = 'on return every reserved section was set by the above; any layout, any number of sections'
    ck.contracts['setup of every filter'] = 'returns only after setLayout or setCoefficients and touches no coefficient afterwards'
