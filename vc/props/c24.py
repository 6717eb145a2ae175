"""C24: copies of a filter are independent of the original."""
from lib import *
from props.c02 import user_insts, sections


def leaves(ex, p):
    """(offset, type) of every scalar in an object of the harness class p"""
    f = F(ex.mod, p + '_type')
    ir.ensure(f)
    for b in f.blocks.values():
        for ins in b:
            if ins[0] == 'alloca':
                if ex.mod.size(ins[2]) == size(ex, p):
                    return ex.mod.leaves(ins[2])
    raise Unsupported('type of %s' % p)


def peek(ex, st, q, o, ty):
    """value of a leaf; None if it is not initialised"""
    try:
        v = ex.flat_load(st, q.reg, o, ty)
    except Unsupported as e:
        if 'uninitialised pointer' in str(e):
            return None
        raise
    return None if v is sym.UNDEF else v


def control(ck, p):
    """the values of the indices and flags of a filter (lib.controls)"""
    ex = Executor(ck.m)
    st = State()
    q, st = new(ex, st, p, 'ctl')
    if p.startswith('rbj_'):
        b, N = one(ex, p + '_bq', [q], st).val, 1
    else:
        b, N = one(ex, p + '_stages', [q], st).val, ival(one(ex, p + '_max', [q], st).val)
    sections(ex, st, b, N)
    lo = ival(b.off)
    return controls(ex, st, q, lambda x, s: run(ex, p + '_filter_d', [q, x], s), lo, lo + N * size(ex, 'bq'), lambda s: run(ex, p + '_reset', [q], s))


def per_control(ck, p, ops, clears):
    """the obligations for each value of the indices and flags"""
    cs = control(ck, p)
    if len(cs) < 2 or len(cs) > 6:
        raise Unsupported('%d control states' % len(cs))
    for e in cs:
        copying(ck, p, ops, e)
        moving(ck, p, ops[:2], e)
        for f in cs:
            assigning(ck, p, clears, e, f, cs)


def obj(ex, st, p, name, ctl=None):
    """a constructed object with arbitrary contents: every scalar except the pointers (and the indices given) is a symbol"""
    q, st = new(ex, st, p, name)
    st = st.clone()
    for o, ty in leaves(ex, p):
        if ty.k == 'ptr':
            continue
        v = peek(ex, st, q, o, ty)
        if ctl and o in ctl:
            w = ctl[o]
        elif ty.k == 'i':
            if ty.n >= 32:
                # counts and capacities: in the range the constructor and setup leave them in
                c = v if v is not None and isconst(v) else None
                if c is not None and ival(c) > 0:
                    continue
                w = ivar('%s.%d' % (name, o))
            else:
                w = v
        else:
            w = fvar('%s.%d' % (name, o))
        ex.flat_store(st, q.reg, o, ty, w)
    return q, st


def rebased(v, a, b):
    """v with pointers into region a redirected into region b"""
    return Ptr(b, v.off) if isinstance(v, Ptr) and v.reg == a else v


def own(ck, what, ex, p, q, st):
    """every pointer held by the object points into the object"""
    for o, ty in leaves(ex, p):
        if ty.k != 'ptr':
            continue
        v = peek(ex, st.clone(), q, o, ty)
        ck.ok('%s: pointer +%d' % (what, o), isinstance(v, Ptr) and v.reg in (q.reg, None), repr(v))


def equal(ck, what, ex, p, st, q, st0, q0):
    """q in st holds what q0 held in st0, its pointers aside"""
    for o, ty in leaves(ex, p):
        a, b = peek(ex, st.clone(), q, o, ty), peek(ex, st0.clone(), q0, o, ty)
        if b is None:
            continue
        if a is None:
            ck.ok('%s: +%d' % (what, o), False, 'not initialised')
            continue
        ck.same('%s: +%d' % (what, o), st.pc, a, rebased(b, q0.reg, q.reg))


def copying(ck, p, ops, ctl=None):
    ex = Executor(ck.m)
    st = State()
    q0, st = obj(ex, st, p, 'source', ctl)
    own(ck, '%s: a filter uses its own storage' % p, ex, p, q0, st)
    q = region(ex, st, p, 'copy')
    st0 = st.clone()
    n = 0
    for o in run(ex, p + '_copy', [q, q0], st):
        if o.kind != 'ret':
            ck.holds('%s: copying returns' % p, o.st.pc, FALSE)
            continue
        n += 1
        equal(ck, '%s: the copy holds what the source held' % p, ex, p, o.st, q, st0, q0)
        equal(ck, '%s: copying leaves the source as it was' % p, ex, p, o.st, q0, st0, q0)
        own(ck, '%s: the copy uses its own storage' % p, ex, p, q, o.st)
        own(ck, '%s: the source keeps its own storage' % p, ex, p, q0, o.st)
        # afterwards neither touches the other
        for a, b, w in ((q, q0, 'copy'), (q0, q, 'source')):
            for fnm, args in ops:
                for r in run(ex, '%s_%s' % (p, fnm), [a] + args, o.st.clone()):
                    equal(ck, '%s: %s of the %s leaves the other as it was' % (p, fnm, w), ex, p, r.st, b, o.st, b)
                    own(ck, '%s: %s keeps the storage of the %s' % (p, fnm, w), ex, p, a, r.st)
    ck.ok('%s: copying returns' % p, n > 0)
    ck.ok('%s: no heap memory' % p, not any(e[0] == 'heap' for e in st.events))
    ck.use(ex)


def moving(ck, p, ops, ctl=None):
    """a filter which is moved (returned from a function, kept in a container) goes on in its own storage"""
    ex = Executor(ck.m)
    st = State()
    q0, st = obj(ex, st, p, 'source', ctl)
    q = region(ex, st, p, 'moved')
    st0 = st.clone()
    n = 0
    for o in run(ex, p + '_move', [q, q0], st):
        if o.kind != 'ret':
            ck.holds('%s: moving returns' % p, o.st.pc, FALSE)
            continue
        n += 1
        equal(ck, '%s: the moved filter holds what the source held' % p, ex, p, o.st, q, st0, q0)
        own(ck, '%s: the moved filter uses its own storage' % p, ex, p, q, o.st)
        for fnm, args in ops:
            for r in run(ex, '%s_%s' % (p, fnm), [q0] + args, o.st.clone()):
                equal(ck, '%s: %s of the source leaves the moved filter as it was' % (p, fnm), ex, p, r.st, q, o.st, q)
    ck.ok('%s: moving returns' % p, n > 0)
    ck.use(ex)


def assigning(ck, p, clears, ctl=None, ctl2=None, all_=(None,)):
    ex = Executor(ck.m)
    st = State()
    fresh, st = new(ex, st, p, 'fresh')
    want = st.clone()
    q0, st = obj(ex, st, p, 'source', ctl)
    q, st = obj(ex, st, p, 'target', ctl2)
    st0 = st.clone()
    n = 0
    for o in run(ex, p + '_assign', [q, q0], st):
        if o.kind != 'ret':
            ck.holds('%s: assignment returns' % p, o.st.pc, FALSE)
            continue
        n += 1
        equal(ck, '%s: assignment leaves the source as it was' % p, ex, p, o.st, q0, st0, q0)
        own(ck, '%s: the target keeps its own storage' % p, ex, p, q, o.st)
        own(ck, '%s: the source keeps its own storage' % p, ex, p, q0, o.st)
        if clears:
            rng = delay(ex, p, o.st, q, all_)
            k = 0
            for a, ty in leaves(ex, p):
                if rng(a):
                    k += 1
                    v, w = peek(ex, o.st.clone(), q, a, ty), peek(ex, want.clone(), fresh, a, ty)
                    ck.same('%s: delay line cell +%d of the target is that of a new filter' % (p, a), o.st.pc, v, w if w is not None else FC(0))
            ck.ok('%s: delay lines found' % p, k > 0)
            # the rest is either kept or copied
            for a, ty in leaves(ex, p):
                if rng(a) or ty.k == 'ptr':
                    continue
                v, x, y = peek(ex, o.st.clone(), q, a, ty), peek(ex, st0.clone(), q, a, ty), peek(ex, st0.clone(), q0, a, ty)
                if v is not None and not (v is x or v is y):
                    ck.same('%s: +%d is kept' % (p, a), o.st.pc, v, x)
    ck.ok('%s: assignment returns' % p, n > 0)
    # to itself
    for o in run(ex, p + '_assign', [q, q], st0.clone()):
        own(ck, '%s: assigned to itself, the filter keeps its own storage' % p, ex, p, q, o.st)
        for a, ty in leaves(ex, p):
            if ty.k != 'ptr' and not (clears and rng(a)):
                v, x = peek(ex, o.st.clone(), q, a, ty), peek(ex, st0.clone(), q, a, ty)
                if x is not None:
                    ck.same('%s: assigned to itself, +%d is kept' % (p, a), o.st.pc, v, x)
    ck.use(ex)


def delay(ex, p, st, q, ctls=(None,)):
    """cells which filtering a sample writes, with arbitrary contents before: the delay lines"""
    touched = set()
    for e in ctls:
        s = st.clone()
        for o, ty in leaves(ex, p):
            if ty.k == 'double':
                ex.flat_store(s, q.reg, o, ty, fvar('any.%d' % o))
            elif e and o in e:
                ex.flat_store(s, q.reg, o, ty, e[o])
        before = {o: v for o, (v, z) in s.mem[q.reg].cells.items()}
        for o in run(ex, p + '_filter_d', [q, fvar('probe')], s):
            for a, (v, z) in o.st.mem[q.reg].cells.items():
                if before.get(a) is not v:
                    touched.add(a)
    return lambda a: a in touched


def check(ck):
    Ns = sizes(ck, (1, 3), range(1, 9), (8,))
    ui = user_insts()
    if ck.thorough:
        ui = ui + [(k, 5, STATES[(i + 2) % 3]) for i, (k, N, S) in enumerate(ui)]
    ck.m = core.module({'core': harness.g_core(), 'cascade': harness.g_cascade(Ns), 'user': harness.g_user(ui)})
    flt1 = [('filter_d', [fvar('x')]), ('reset', []), ('delete', [])]
    for k, N, S in ui:
        p = 'u_%s_%s_%d' % (k, SHORT[S], N)
        ck.group(p, lambda: (copying(ck, p, flt1), moving(ck, p, flt1[:2]), assigning(ck, p, True)), retry=lambda: per_control(ck, p, flt1, True))
    for S in STATES:
        for pre in ('cs', 'sos'):
            for N in Ns:
                p = '%s_%s_%d' % (pre, SHORT[S], N)
                ck.group(p, lambda: (copying(ck, p, flt1), moving(ck, p, flt1[:2]), assigning(ck, p, False)), retry=lambda: per_control(ck, p, flt1, False))
    for cls in RBJ:
        p = 'rbj_' + cls
        ck.group(p, lambda: (copying(ck, p, flt1), moving(ck, p, flt1[:2]), assigning(ck, p, False)), retry=lambda: per_control(ck, p, flt1, False))
    ck.contracts['copy constructor of every filter'] = 'every scalar of the copy equals the one of the source, every pointer of the copy points into the copy and of the source into the source; the source is unchanged'
    ck.contracts['move constructor of every filter'] = 'every scalar of the new filter equals the one of the source, every pointer points into the new filter'
    ck.contracts['assignment of every Butterworth/Chebyshev filter'] = 'the delay lines of the target are those of a new filter, the source is unchanged, pointers of both stay within the own object'
    ck.contracts['filter, reset, destructor'] = 'leave every scalar of the other object unchanged'
