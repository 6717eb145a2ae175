"""C04: every sample type is processed internally in double precision."""
from lib import *
from props.c02 import sections, havoc_but, user_insts
from props.c03 import configuration

CASTS = ''.join(harness.X('%s cast_%s(double x)' % (T_, k), 'return static_cast<%s>(x);' % T_) +
                harness.X('double wide_%s(%s x)' % (k, T_), 'return (double)x;') for k, T_ in SAMPLES.items())


def arg(k):
    return fvar('x') if k == 'd' else fn32() if k == 'f' else ivar('xi')


def fn32():
    return fvar('xf')      # a float: widening is exact


def check_one(ck, p, kind, k, n=None):
    ex = Executor(ck.m)
    st = State()
    q, st = new(ex, st, p)
    if kind == 'rbj':
        b, N = one(ex, p + '_bq', [q], st).val, 1
    else:
        b = one(ex, p + '_stages', [q], st).val
        N = ival(one(ex, p + '_max', [q], st).val)
    sections(ex, st, b, N)
    lo, hi = ival(b.off), ival(b.off) + N * size(ex, 'bq')
    if n is None:
        keep = configuration(ex, st, q, lambda x, s: run(ex, p + '_filter_d', [q, x], s), lo, hi)
        havoc_but(ex, st, q, lo, hi, lambda o: o not in keep)
    xs = [arg(k)] if n is None else [rename(arg(k), i) for i in range(n)]
    A, D = [(st.clone(), [])], [(st.clone(), [])]
    for x in xs:
        w = one(ex, 'wide_' + k, [x], State()).val
        A = [(o.st, y + [(o.kind, o.val)]) for s, y in A for o in run(ex, '%s_filter_%s' % (p, k), [q, x], s)]
        D2 = []
        for s, y in D:
            for o in run(ex, p + '_filter_d', [q, w], s):
                for c in run(ex, 'cast_' + k, [o.val], o.st):
                    D2.append((c.st, y + [(o.kind, c.val)]))
        D = D2
        if len(A) > 30 or len(D) > 30:
            raise Unsupported('too many paths')
    for s, y in A:
        for s2, y2 in D:
            pc = s.pc + tuple(c for c in s2.pc if c not in s.pc)
            if s.pc != s2.pc and not smt.feasible(pc):
                continue
            for (ka, a), (kb, d) in zip(y, y2):
                ck.ok('%s: returns' % p, ka == kb == 'ret')
                ck.same('%s: %s sample equals the rounded double result' % (p, SAMPLES[k]), pc, a, d)
            for o in sorted(set(cells(s, q.reg)) | set(cells(s2, q.reg))):
                ty = ir.Ty('double')
                v1, v2 = s.mem[q.reg].cells.get(o), s2.mem[q.reg].cells.get(o)
                if v1 is None or v2 is None:
                    ck.ok('%s: same cells written' % p, False)
                else:
                    ck.same('%s: delay line cell +%d as in double processing' % (p, o), pc, v1[0], v2[0])
    ck.use(ex)


def rename(t, i):
    return fvar('%s%d' % (t.args[0], i)) if t.op == 'fvar' else ivar('xi%d' % i)


def check(ck):
    Ns = sizes(ck, range(1, 6), range(1, 13), (8, 33))
    ui = user_insts()
    ck.m = core.module({'core': harness.g_core() + CASTS, 'cascade': harness.g_cascade(Ns), 'user': harness.g_user(ui)})
    objs = [('rbj_' + c, 'rbj', k) for c in RBJ for k in SAMPLES if k != 'd']
    objs += [('%s_%s_%d' % (pre, SHORT[S], N), 'cs', k) for S in STATES for pre in ('cs', 'sos') for N in Ns for k in SAMPLES if k != 'd']
    objs += [('u_%s_%s_%d' % (k_, SHORT[S], N), 'cs', k) for k_, N, S in ui for k in ('f', 'i')]
    for p, kind, k in objs:
        ck.group('%s: %s samples' % (p, SAMPLES[k]), lambda: check_one(ck, p, kind, k), lambda: check_one(ck, p, kind, k, 3), '3 samples', exact=False)
    ck.contracts['CascadeStages<N,State>::filter<Sample>, RBJbase::filter<Sample>'] = \
        'filter<Sample>(x) == static_cast<Sample>(filter<double>((double)x)) with the same delay lines afterwards, rounding to single precision being an uninterpreted function which must not occur anywhere else'
    ck.assumptions.append('integer samples are within the range which converts exactly to double; conversion back is the C++ conversion')
