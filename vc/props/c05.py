"""C05: filtering is linear, time invariant and free of hidden inputs."""
from lib import *
from props.c02 import sections, havoc_but, user_insts
from props.c03 import configuration


def prepare(ck, ex, p, kind):
    st = State()
    q, st = new(ex, st, p)
    if kind == 'state':
        b, c = biquad(ex, st)
        lo = hi = 0
        step = lambda x, s: run(ex, p + '_filter', [q, x, b], s)
        N = 1
        names = {v.args[0] for v in c.values()}
    else:
        if kind == 'rbj':
            b, N = one(ex, p + '_bq', [q], st).val, 1
        else:
            b = one(ex, p + '_stages', [q], st).val
            N = ival(one(ex, p + '_max', [q], st).val)
        cs = sections(ex, st, b, N)
        lo, hi = ival(b.off), ival(b.off) + N * size(ex, 'bq')
        step = lambda x, s: run(ex, p + '_filter_d', [q, x], s)
        names = {v.args[0] for c in cs for v in c.values()}
    return q, st, b, N, lo, hi, step, names


def control(ex, p, q, st, step, lo, hi):
    return controls(ex, st, q, step, lo, hi, lambda s: run(ex, p + '_reset', [q], s))


def per_control(ck, p, kind):
    ex = Executor(ck.m)
    q, st, b, N, lo, hi, step, names = prepare(ck, ex, p, kind)
    for e in control(ex, p, q, st, step, lo, hi):
        linear(ck, p, kind, e)


def linear(ck, p, kind, ctl=None):
    ex = Executor(ck.m)
    q, st, b, N, lo, hi, step, names = prepare(ck, ex, p, kind)
    keep = configuration(ex, st, q, step, lo, hi)
    havoc_but(ex, st, q, lo, hi, lambda o: o not in keep)
    put_control(st, q, ctl or {})
    outs = step(fvar('x'), st)
    V = {'x'} | {'%s+%d' % (q.reg, o) for o in range(0, ex.regs[q.reg].size)}
    ok_names = V | names
    for o in outs:
        ck.ok('%s: returns' % p, o.kind == 'ret')
        ck.ok('%s: no branch depends on the signal' % p, not any(free(c) & V for c in o.st.pc), detail=str(o.st.pc)[:300]) if len(outs) > 1 else None
        vals = [('output', o.val)] + [('delay line cell +%d' % a, v) for a, (v, z) in sorted(o.st.mem[q.reg].cells.items())
                                      if a not in keep and not lo <= a < hi and isinstance(v, T) and v.sort == 'f']
        for nm, t in vals:
            extra = free(t) - ok_names
            ck.ok('%s: %s depends only on the sample, the coefficients and this object' % (p, nm), not extra, detail=str(sorted(extra)) if extra else None)
            if is_linear(t, V):
                ck.add('%s: %s is linear in sample and delay lines' % (p, nm), 'proved', 'syntactic')
            else:
                vs = sorted(free(t) & V)
                m1 = {fvar(v): fvar(v + "'") for v in vs}
                m2 = {fvar(v): fvar(v + "''") for v in vs}
                mc = {fvar(v): fvar('alpha') * fvar(v + "'") + fvar('beta') * fvar(v + "''") for v in vs}
                ck.eq('%s: %s satisfies superposition' % (p, nm), o.st.pc, subst(t, mc),
                      fvar('alpha') * subst(t, m1) + fvar('beta') * subst(t, m2))
        for r in o.st.mem:
            if r.startswith('@') and ex.regs[r].inp:
                ck.ok('%s: uses no mutable global (%s)' % (p, r), False)
        for r in o.st.mem:
            if r in st.mem and r != q.reg and not r.startswith('@'):
                ck.ok('%s: writes nothing outside the object (%s)' % (p, r), cells(o.st, r) == cells(st, r))
    ck.feasible(p, outs[0].st.pc)
    ck.use(ex)


def bounded(ck, p, kind, n=4):
    """superposition over n samples after construction"""
    ex = Executor(ck.m)
    q, st, b, N, lo, hi, step, names = prepare(ck, ex, p, kind)

    control(ex, p, q, st, step, lo, hi)

    def feed(xs):
        cur = [(st.clone(), [])]
        for x in xs:
            cur = [(o.st, y + [o.val]) for s, y in cur for o in step(x, s)]
            if len(cur) != 1:
                raise Unsupported('branching on the signal')
        return cur[0]
    u, v = [fvar('u%d' % i) for i in range(n)], [fvar('v%d' % i) for i in range(n)]
    s, yu = feed(u)
    V = {x.args[0] for x in u}
    for i, y in enumerate(yu):
        if is_linear(y, V):
            ck.add('%s: output %d is linear in the samples' % (p, i), 'proved', 'syntactic')
            extra = free(y) - V - names
            ck.ok('%s: output %d has no hidden input' % (p, i), not extra)
        else:
            _, yv = feed(v)
            _, yw = feed([fvar('alpha') * a + fvar('beta') * c for a, c in zip(u, v)])
            ck.eq('%s: superposition at sample %d' % (p, i), (), yw[i], fvar('alpha') * yu[i] + fvar('beta') * yv[i])


def check(ck):
    Ns = sizes(ck, range(1, 7), range(1, 13), (8, 16, 33))
    ui = user_insts()
    ck.m = core.module({'core': harness.g_core(), 'cascade': harness.g_cascade(Ns), 'user': harness.g_user(ui)})
    objs = [(SHORT[S], 'state') for S in STATES] + [('rbj_' + c, 'rbj') for c in RBJ]
    objs += [('%s_%s_%d' % (pre, SHORT[S], N), 'cs') for S in STATES for pre in ('cs', 'sos') for N in Ns]
    objs += [('u_%s_%s_%d' % (k, SHORT[S], N), 'cs') for k, N, S in ui]
    for p, kind in objs:
        ck.group('%s: one sample from any delay lines' % p, lambda: linear(ck, p, kind), lambda: bounded(ck, p, kind), '4 samples after construction', exact=False,
                 retry=lambda: per_control(ck, p, kind))
    ck.contracts['State::filter, CascadeStages<N,State>::filter, RBJbase::filter'] = \
        'output and next delay lines are homogeneous linear functions of (sample, delay lines) whose coefficients depend on the section coefficients only; nothing else is read or written'
