"""C12: no argument makes the library access memory outside its own storage."""
import time
from kernel import *
import props.c15 as c15
import props.c24 as c24

LIM = IC(1 << 20)       # capacities: sizes of arrays inside one object


class opaque:
    """every floating-point value and every comparison of them is arbitrary (which covers NaN and the infinities)"""

    def __enter__(self):
        tm.MODE[0] = 'O'

    def __exit__(self, *a):
        tm.MODE[0] = 'R'


def executor(ck, contracts=None):
    ex = Executor(ck.m, contracts=contracts or {})
    ex.overflow = True
    return ex


def i32(st, *v):
    for x in v:
        st.assume(ile(IC(-(1 << 31)), x))
        st.assume(ilt(x, IC(1 << 31)))


def obligations(ck, what, ex):
    seen = set()
    for o in ex.obs:
        k = (o.name, o.goal, o.pc)
        if k in seen:
            continue
        seen.add(k)
        fn_ = o.where[2] if isinstance(o.where, tuple) else o.where
        nm = '%s: %s in %s' % (what, o.name, fn_)
        t = time.time()
        if smt.entails(o.pc, o.goal):
            ck.add(nm, 'proved', 'z3', time.time() - t)
        else:
            ck.undecided(nm, '%s does not follow from the path' % (o.goal,))
    ex.obs = []
    ck.use(ex)


def outcomes(ck, what, outs, ret=True):
    n = 0
    for o in outs:
        if o.kind == 'ret':
            n += 1
        else:
            ck.ok('%s: ends with a standard exception or returns' % what, o.kind == 'throw' and ('invalid_argument' in str(o.info) or 'by ' in str(o.info) or o.info == 'resume'), (o.kind, o.info))
    if ret:
        ck.ok('%s: returns for some input' % what, n > 0)
    return [o for o in outs if o.kind == 'ret']


def safe(ck, what, ex, fnm, args, st, ret=True):
    """a call from st: every access inside its storage, no overflow of integers; the states in which it returns"""
    outs = run(ex, fnm, args, st.clone())
    obligations(ck, what, ex)
    return outcomes(ck, what, outs, ret)


def bounded(st, *v):
    for x in v:
        st.assume(ile(x, LIM))


# ---------------------------------------------------------------- parts over storages of any size
def proto(ck, ns, c):
    what = '%s::%s::design' % (ns, c)
    with opaque():
        ex = executor(ck)
        st = State()
        p = 'an_%s_%s' % (ns, c)
        N = ivar('N', True)
        bounded(st, N)
        arr = ex.new_array(st, 'analog', ck.m.named('struct.Iir::PoleZeroPair'), idiv(iadd(N, IC(1)), IC(2)))
        q = region(ex, st, p, 'proto')
        st = one(ex, p + '_new', [q, N, arr], st).st
        arbitrary(ex, st, q)
        lay = one(ex, p + '_lay', [q], st).val
        m = one(ex, 'lay_num', [lay], st).val
        st.assume(ile(IC(0), m))
        st.assume(ile(m, N))
        n = ivar('n')
        i32(st, n)
        st.assume(ile(n, N))
        for o in safe(ck, what, ex, p + '_design', [q, n] + [ANY] * len(params(ns, c)), st):
            # what the transforms rely on
            m = one(ex, 'lay_num', [lay], o.st.clone()).val
            ck.holds('%s: pole count within the storage' % what, o.st.pc, an(ile(IC(0), m), ile(m, N)))
        for o in run(ex, p + '_design', [q, n] + [ANY] * len(params(ns, c)), st.clone()):
            if o.kind != 'ret':
                m = one(ex, 'lay_num', [lay], o.st.clone()).val
                ck.holds('%s: pole count within the storage after an exception' % what, o.st.pc, an(ile(IC(0), m), ile(m, N)))


def trans(ck, t):
    what = '%sTransform' % t
    with opaque():
        ex = executor(ck)
        st = State()
        A, _, ac, an_, st = layout(ex, st, 'A')
        D, _, dc, dn, st = layout(ex, st, 'D')
        bounded(st, ac, dc)
        st.assume(ile(imul(an_, IC(TRANS[t])), dc))
        for o in safe(ck, what, ex, 'tr_' + t, [ANY] * TRANS[t] + [D, A], st):
            m = one(ex, 'lay_num', [D], o.st.clone()).val
            ck.eq('%s: pole count' % what, o.st.pc, m, imul(an_, IC(TRANS[t])))
        for o in run(ex, 'tr_' + t, [ANY] * TRANS[t] + [D, A], st.clone()):
            m = one(ex, 'lay_num', [D], o.st.clone()).val
            ck.holds('%s: pole count within the storage' % what, o.st.pc, an(ile(IC(0), m), ile(m, dc)))


def set_layout(ck):
    what = 'Cascade::setLayout'
    with opaque():
        ex = executor(ck)
        st = State()
        q, arr, M, n0, st = cascade(ex, st)
        l, pr, cap, np, st = layout(ex, st)
        bounded(st, M, cap)
        outs = run(ex, 'cas_layout', [q, l], st.clone())
        obligations(ck, what, ex)
        outcomes(ck, what, outs)
        for o in outs:
            n = one(ex, 'cas_num', [q], o.st.clone()).val
            ck.holds('%s: number of sections within the storage' % what, o.st.pc, an(ile(IC(0), n), ile(n, M)))


def cas(ck):
    with opaque():
        for fnm, args in (('response', lambda ex, s: [ANY, ex.new_flat(s, ex.fresh('o'), 16)]), ('scale', lambda ex, s: [ANY]), ('num', lambda ex, s: [])):
            ex = executor(ck)
            st = State()
            q, arr, M, n0, st = cascade(ex, st)
            bounded(st, M)
            safe(ck, 'Cascade::' + fnm, ex, 'cas_' + fnm, [q] + args(ex, st), st)
        ex = executor(ck)
        st = State()
        q, arr, M, n0, st = cascade(ex, st)
        bounded(st, M)
        v = ex.new_flat(st, 'vec', 64)
        safe(ck, 'Cascade::getPoleZeros', ex, 'cas_pz', [q, v], st)
        ex = executor(ck)
        st = State()
        q, arr, M, n0, st = cascade(ex, st)
        bounded(st, M)
        i = ivar('index')
        i32(st, i)
        for o in safe(ck, 'Cascade::operator[]', ex, 'cas_at', [q, i], st):
            ck.holds('Cascade::operator[]: an index which is not a section is rejected', o.st.pc, an(ile(IC(0), i), ilt(i, n0)))
            ck.ok('Cascade::operator[]: a section of its own', isinstance(o.val, Ptr) and o.val.reg == arr.reg, repr(o.val))


def lay(ck):
    with opaque():
        for fnm in ('at', 'pair'):
            ex = executor(ck)
            st = State()
            l, arr, cap, n, st = layout(ex, st)
            bounded(st, cap)
            i = ivar('index')
            i32(st, i)
            what = 'LayoutBase::' + {'at': 'operator[]', 'pair': 'getPair'}[fnm]
            for o in safe(ck, what, ex, 'lay_' + fnm, [l, i], st):
                ck.holds('%s: an index which is not a pair is rejected' % what, o.st.pc, an(ile(IC(0), i), ilt(i, idiv(iadd(n, IC(1)), IC(2)))))
                ck.ok('%s: a pair of its own' % what, isinstance(o.val, Ptr) and o.val.reg == arr.reg, repr(o.val))
        for fnm, k, a in (('add1', 1, 4), ('addc', 2, 4), ('add2', 2, 8)):
            ex = executor(ck)
            st = State()
            l, arr, cap, n, st = layout(ex, st)
            bounded(st, cap)
            st.assume(ile(iadd(n, IC(k)), cap))
            for o in safe(ck, 'LayoutBase::' + fnm, ex, 'lay_' + fnm, [l] + [ANY] * a, st):
                ck.eq('LayoutBase::%s: pole count' % fnm, o.st.pc, one(ex, 'lay_num', [l], o.st.clone()).val, iadd(n, IC(k)))
        ex = executor(ck)
        st = State()
        l, arr, cap, n, st = layout(ex, st)
        for o in safe(ck, 'LayoutBase::reset', ex, 'lay_reset', [l], st):
            ck.eq('LayoutBase::reset', o.st.pc, one(ex, 'lay_num', [l], o.st.clone()).val, IC(0))


def setup(ck, key):
    """the base class setup: the prototype gets an order within its storage, the transform a storage of the size it needs"""
    what = '%s::setup' % key
    ns, c, fr, exr = FAM[key]
    with opaque():
        ex = executor(ck)
        st = State()
        q, d, st = opened(ex, st, key, arb=True)
        bounded(st, d['N'])
        n = ivar('n')
        i32(st, n)
        st.assume(ile(n, d['N']))
        S = contracts.Stubs(ex, key)
        outs = run(ex, 'op_%s_setup' % key, [q, n] + [ANY] * (len(fr) + len(exr)), st.clone())
        obligations(ck, what, ex)
        outcomes(ck, what, outs)
        v = S.v
        k = 0
        for o in outs:
            for e in o.st.events:
                if e[0] != 'call':
                    continue
                k += 1
                x = S.calls[e[1]]
                if x[0] == 'design':
                    s = x[4]
                    ck.holds('%s: design: the order fits the storage of the prototype' % what, s.pc, ile(x[2], ex.load(s.clone(), x[1].plus(v.max), I32)))
                    own(ck, what, ex, s, x[1], v.max, v.pair, d['analog'], idiv(iadd(d['N'], IC(1)), IC(2)), d['N'])
                elif x[0] == 'transform':
                    s, D, A = x[5], x[3], x[4]
                    ck.holds('%s: transform: the poles fit the storage of the digital filter' % what, s.pc,
                             ile(imul(ex.load(s.clone(), A.plus(v.num), I32), IC(TRANS[x[1]])), ex.load(s.clone(), D.plus(v.max), I32)))
                    own(ck, what, ex, s, D, v.max, v.pair, d['digital'], d['M'], d['dN'])
                    own(ck, what, ex, s, A, v.max, v.pair, d['analog'], idiv(iadd(d['N'], IC(1)), IC(2)), d['N'])
                else:
                    s, l = x[3], x[2]
                    own(ck, what, ex, s, l, v.max, v.pair, d['digital'], d['M'], d['dN'])
                    m = ex.load(s.clone(), l.plus(v.num), I32)
                    ck.holds('%s: setLayout: as many poles as the storage may hold' % what, s.pc, an(ile(IC(0), m), ile(m, d['dN'])))
        ck.ok('%s: designs' % what, k > 0)


def own(ck, what, ex, s, l, mx, pr, arr, length, cap):
    """layout l in state s lies over the array arr, and its capacity is not above that of the array"""
    p = ex.load(s.clone(), l.plus(pr), ir.PTR)
    ck.ok('%s: a layout over its own storage' % what, isinstance(p, Ptr) and p.reg == arr.reg and p == arr, repr(p))
    m = ex.load(s.clone(), l.plus(mx), I32)
    ck.holds('%s: the capacity of the layout is that of its storage' % what, s.pc, ile(idiv(iadd(m, IC(1)), IC(2)), length))


# ---------------------------------------------------------------- instantiated filters
def arrays(mod, ty, off=0):
    """(offset, element type, length, bytes) of every array of objects inside a type"""
    if ty.k == 'arr':
        yield off, str(ty.el.name or ''), ty.n, mod.size(ty.el)
        for j in range(ty.n):
            yield from arrays(mod, ty.el, off + j * mod.size(ty.el))
    elif ty.k not in ('i', 'double', 'float', 'ptr'):
        for o, f in zip(mod.layout(ty)[0], mod.fields(ty)):
            yield from arrays(mod, f, off + o)


def extent(arrs, el, q, p):
    """elements from p to the end of the array inside the object q which p points into"""
    if not isinstance(p, Ptr) or p.reg != q.reg or not isconst(p.off):
        return 0
    o = ival(p.off)
    for a, e, n, z in arrs:
        if e.split('.')[-1].split('::')[-1] == el and a <= o < a + n * z and (o - a) % z == 0:
            return n - (o - a) // z
    return 0


def user(ck, key, N, S):
    """an instantiated filter: the storages handed to the base classes are arrays of at least the size announced"""
    p = 'u_%s_%s_%d' % (key, SHORT[S], N)
    ns, c, fr, exr = FAM[key]
    k = 2 if harness.band(key) else 1
    ex = executor(ck)
    st = State()
    q, st = new(ex, st, p)
    obligations(ck, p + ': constructor', ex)
    arrs = list(arrays(ex.mod, objtype(ex, p)))
    sts = one(ex, p + '_stages', [q], st).val
    mx = one(ex, p + '_max', [q], st).val
    ck.ok('%s: own stages' % p, extent(arrs, 'Biquad', q, sts) >= ival(mx) > 0, (repr(sts), ival(mx)))
    # what design, transform and setLayout are handed
    ex2 = executor(ck)
    ex2.keepflat = True
    Sx = contracts.Stubs(ex2, key)
    st = State()
    q, st = new(ex2, st, p)
    ex2.obs = []
    arbitrary(ex2, st, q)
    v = Sx.v
    n = ivar('order')
    layouts = {}        # where the pole counts are, and their largest values
    for fnm, a in (('setup', [fvar('sr')]), ('setup_o', [n, fvar('sr')]), ('setupN', []), ('setupN_o', [n])):
        s0 = st.clone()
        i32(s0, n)
        what = '%s: %s' % (p, fnm)
        outs = run(ex2, p + '_' + fnm, [q] + a + [fvar(x) for x in fr + exr], s0)
        obligations(ck, what, ex2)
        outcomes(ck, what, outs)
        for o in outs:
            for e in o.st.events:
                if e[0] != 'call':
                    continue
                x = Sx.calls[e[1]]
                if x[0] == 'design':
                    s, l = x[4], x[1]
                    ck.holds('%s: no order above the instantiated one is designed' % what, s.pc, ile(x[2], IC(N)))
                    need, cap = [(l, N)], N
                elif x[0] == 'transform':
                    s = x[5]
                    need = [(x[4], N), (x[3], k * N)]
                    layouts[x[4].plus(v.num).off] = N
                    layouts[x[3].plus(v.num).off] = k * N
                    ck.ok('%s: analogue and digital filter do not share a storage' % what, ex2.load(s.clone(), x[3].plus(v.pair), ir.PTR) != ex2.load(s.clone(), x[4].plus(v.pair), ir.PTR))
                    ck.ok('%s: transform' % what, TRANS[x[1]] == k, x[1])
                else:
                    s, ca, l = x[3], x[1], x[2]
                    need = [(l, k * N)]
                    a_ = ex2.load(s.clone(), ca.plus(v.stages), ir.PTR)
                    m_ = one(ex2, p + '_max', [q], s.clone()).val
                    ck.ok('%s: setLayout: own stages' % what, extent(arrs, 'Biquad', q, a_) >= ival(m_) >= (k * N + 1) // 2, repr(a_))
                for l, c_ in need:
                    pp = ex2.load(s.clone(), l.plus(v.pair), ir.PTR)
                    ck.ok('%s: own storage for the pairs' % what, extent(arrs, 'PoleZeroPair', q, pp) >= (c_ + 1) // 2, (repr(pp), c_))
    # everything else the user may call, from any state with numbers of sections and poles within the storages:
    # design, the transforms and setLayout keep them there, whether they return or throw
    i = ivar('index')
    with opaque():
        for fnm, a in (('response', [ANY, 'o']), ('pz', ['o']), ('scale', [ANY]), ('reset', []), ('at', [i]), ('filter_d', [ANY]), ('filter_f', [ANY]), ('filter_i', [ivar('x')])):
            e3 = executor(ck)
            s = State()
            q, s = new(e3, s, p)
            arbitrary(e3, s, q)
            num = one(e3, p + '_num', [q], s).val
            s.assume(ile(IC(0), num))
            s.assume(ile(num, mx))
            i32(s, i)
            for off, most in layouts.items():
                m = e3.flat_load(s, q.reg, ival(off), I32)
                s.assume(an(ile(IC(0), m), ile(m, IC(most))))
            for o in safe(ck, '%s: %s' % (p, fnm), e3, p + '_' + fnm, [q] + [e3.new_flat(s, e3.fresh('o'), 64) if isinstance(x, str) else x for x in a], s):
                if fnm == 'at':
                    ck.holds('%s: an index which is not a section is rejected' % p, o.st.pc, an(ile(IC(0), i), ilt(i, num)))


def objtype(ex, p):
    f = F(ex.mod, p + '_type')
    ir.ensure(f)
    for b in f.blocks.values():
        for ins in b:
            if ins[0] == 'alloca' and ex.mod.size(ins[2]) == size(ex, p):
                return ins[2]
    raise Unsupported('type of %s' % p)


# ---------------------------------------------------------------- parts of a fixed size
def fixed(ck, p, calls):
    """the members of a class without indices: each from any contents"""
    with opaque():
        for fnm, a in calls:
            ex = executor(ck)
            st = State()
            q, st = new(ex, st, p)
            arbitrary(ex, st, q)
            safe(ck, '%s: %s' % (p, fnm), ex, '%s_%s' % (p, fnm), [q] + [ex.new_flat(st, ex.fresh('m'), x, inp=True) if isinstance(x, int) else x for x in a], st)


def copies(ck, p):
    ex = executor(ck)
    st = State()
    q0, st = c24.obj(ex, st, p, 'source')
    q = region(ex, st, p, 'copy')
    outs = run(ex, p + '_copy', [q, q0], st)
    obligations(ck, p + ': copy', ex)
    for o in outcomes(ck, p + ': copy', outs):
        c24.own(ck, p + ': copy', ex, p, q, o.st)


def check(ck):
    Ns = sizes(ck, range(1, 4), range(1, 11), (8,))
    ui = []
    for i, k in enumerate(FAM):
        for N in ((1, 2, 3, 4, 5, 6, 7, 8) if ck.thorough else (1 + i % 3, 4 + i % 2)):
            ui.append((k, N, STATES[(i + N) % 3]))
        ui.append((k, 7 + (5 * i) % 11, STATES[i % 3]))
        for v in unusual():
            ui += [(k, v + j, STATES[(i + j) % 3]) for j in (-1, 0, 1)]
    ui = list(dict.fromkeys(ui))
    ck.m = core.module({'core': harness.g_core(), 'open': harness.g_open(), 'cascade': harness.g_cascade(Ns), 'user': harness.g_user(ui)})
    ck.group('LayoutBase', lambda: lay(ck))
    for ns, c in PROTO:
        ck.group('%s::%s' % (ns, c), lambda: proto(ck, ns, c))
    for t in TRANS:
        ck.group('%sTransform' % t, lambda: trans(ck, t))
    ck.group('Cascade::setLayout', lambda: set_layout(ck))
    ck.group('Cascade', lambda: cas(ck))
    for key in FAM:
        ck.group('%s::setup' % key, lambda: setup(ck, key))
    for k, N, S in ui:
        ck.group('%s<%d,%s>' % (k, N, S), lambda: (user(ck, k, N, S), copies(ck, 'u_%s_%s_%d' % (k, SHORT[S], N))))
    flt_ = [('filter_' + k, [ivar('x', False) if k in 'isul' else ANY]) for k in 'dfisul']
    for S in STATES:
        ck.group(S, lambda: fixed(ck, SHORT[S], [('filter', [ANY, 56]), ('reset', [])]))
        for N in Ns:
            ck.group('CascadeStages<%d,%s>' % (N, S), lambda: (fixed(ck, 'cs_%s_%d' % (SHORT[S], N), flt_ + [('reset', []), ('setup', [48 * N])]),
                                                              fixed(ck, 'sos_%s_%d' % (SHORT[S], N), flt_ + [('reset', []), ('setup', [48 * N])]),
                                                              copies(ck, 'sos_%s_%d' % (SHORT[S], N))))
    ck.group('Biquad', lambda: fixed(ck, 'bq', [('set', [ANY] * 6), ('response', [ANY, 16]), ('onepole', [ANY] * 4), ('twopole', [ANY] * 8), ('identity', []), ('scale', [ANY]), ('pz', [64])] + [(x, []) for x in ('A0', 'A1', 'A2', 'B0', 'B1', 'B2')]))
    for cls in RBJ:
        p = 'rbj_' + cls
        ck.group('RBJ::' + cls, lambda: (fixed(ck, p, [('setupN', [ANY] * (1 + len(RBJ[cls][0]))), ('setup', [ANY] * (2 + len(RBJ[cls][0]))), ('reset', [])] + flt_), copies(ck, p)))
    for cls, k in (('OnePole', 3), ('TwoPole', 5)):
        ck.group('Custom::' + cls, lambda: fixed(ck, 'cu_' + cls, [('setup', [ANY] * k)]))
    ck.contracts['AnalogX::design'] = 'requires n <= N poles of storage: writes only pairs inside the storage, pole count within it, no overflow; for any float arguments'
    ck.contracts['XTransform'] = 'requires storage for k n poles: reads and writes only pairs inside the two storages; exactly k n poles'
    ck.contracts['Cascade::setLayout'] = 'any layout: only sections inside the storage, or an exception; number of sections within the storage'
    ck.contracts['Cascade::operator[], LayoutBase::operator[]/getPair'] = 'returns an element of its own storage in use, or throws, for every int'
    ck.contracts['XBase::setup'] = 'hands design, transform and setLayout storages and counts which meet their preconditions'
    ck.contracts['PoleFilter<Base,State,N,M>'] = 'the storages are arrays inside the object of at least the size announced to the base classes; no higher order reaches them'
    ck.assumptions.append('capacities of storages are at most 2^20 (they are sizes of arrays inside an object)')
    ck.assumptions.append('conversion of a filtered value to an integral sample type is a matter of values, not of memory, and not covered')
