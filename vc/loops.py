"""Loops.  A loop whose trip count is decided by the path condition is
unrolled.  Otherwise an inductive invariant over a ghost iteration counter k is
inferred: integers and pointers move linearly in k, floating point
accumulators become recursive functions of k, array writes become ranges.  The
invariant is established at k=0 by construction and its preservation by an
arbitrary iteration is checked; the loop body's own obligations are generated
for that arbitrary iteration."""
from term import *
import term as tm
import ir, smt
from sym import (Ptr, UNDEF, Outcome, Unsupported, PathEnd, Flat, Arr, State, vsubst, ch_subst, idiv_exact)

UNROLL = 300


class NoInvariant(Unsupported):
    pass


def iterate(ex, fr, header, body, prev, env, st, skip=True):
    return ex.run(fr, [(header, prev, env, st)], loop=(header, body), skip_phi=skip)


def handle(ex, fr, header, body, prev, env, st):
    outs, work = [], []
    e0 = dict(env)
    e0.update(ex.phis(fr, header, prev, env, st))
    todo = [(e0, st, 0)]
    paths = 0
    while todo:
        en, s, n = todo.pop()
        paths += 1
        save_obs, save_n = list(ex.obs), ex.collect
        ex.collect = False
        probe = s.clone()
        try:
            res = iterate(ex, fr, header, body, prev, dict(en), probe)
        finally:
            ex.obs, ex.collect = save_obs, save_n
        back = [o for o in res if o.kind == 'back']
        exits = [o for o in res if o.kind == 'exit']
        if back and exits and len(back) + paths < 400:
            # symbolic trip count
            if ex.unroll_symbolic:
                if n >= ex.unroll_symbolic:
                    ex.bound_hit = True
                    back = []
            else:
                try:
                    o2, w2 = induct(ex, fr, header, body, prev, en, s.clone())
                except NoInvariant:
                    o2, w2 = induct(ex, fr, header, body, prev, en, s, rotate=True)
                outs += o2
                work += w2
                continue
        elif len(back) > 1 and not ex.unroll_symbolic and n < 3:
            # the loop ends only after some of its iterations (its own test repeats what they found)
            ex.collect = False
            try:
                some = [ended(ex, fr, header, body, o) for o in back]
                some = any(x and all(y.kind == 'exit' for y in x) for x in some) and not all(x and all(y.kind == 'exit' for y in x) for x in some)
                if some:
                    try:
                        induct(ex, fr, header, body, prev, en, s.clone(), rotate=True)
                    except NoInvariant:
                        some = False
            finally:
                ex.obs, ex.collect = save_obs, save_n
            if some:
                o2, w2 = induct(ex, fr, header, body, prev, en, s, rotate=True)
                outs += o2
                work += w2
                continue
        if n > UNROLL or paths > 3000:
            raise NoInvariant('loop in %s does not terminate within %d iterations' % (fr.fn.dem, UNROLL))
        if ex.collect:
            res = iterate(ex, fr, header, body, prev, dict(en), s)
        for o in res:
            if o.kind == 'back':
                if not back:
                    continue
                p, e2 = o.info
                e3 = dict(e2)
                e3.update(ex.phis(fr, header, p, e2, o.st))
                todo.append((e3, o.st, n + 1))
            elif o.kind == 'exit':
                p, label, e2 = o.info
                work.append((label, p, e2, o.st))
            else:
                outs.append(o)
    return outs, work


def ended(ex, fr, header, body, o):
    """the outcomes of the iteration which follows the one that ended with o"""
    p, e2 = o.info
    s2 = o.st.clone()
    e3 = dict(e2)
    e3.update(ex.phis(fr, header, p, e2, s2))
    return iterate(ex, fr, header, body, p, e3, s2)


def like(v, size):
    if isinstance(v, Ptr):
        return ir.PTR
    if isinstance(v, T):
        if v.sort == 'f':
            return ir.DOUBLE
        if v.sort == 'b':
            return ir.Ty('i', 1)
        return ir.Ty('i', 8 * size)
    return ir.DOUBLE


def peek(ex, st, reg, off, size, v):
    try:
        return ex.flat_load(st, reg, off, like(v, size))
    except PathEnd:
        return UNDEF


def tops(ch, base):
    """stores on top of the chain base, in program order"""
    out = []
    while ch is not base and ch != base:
        if ch[0] != 'store':
            return None
        out.append((ch[2], ch[3]))
        ch = ch[1]
    out.reverse()
    return out


def induct(ex, fr, header, body, prev, env0, st0, rotate=False):
    """rotate: an iteration after which the loop ends at the next test belongs to the exits"""
    kname = ex.fresh('k')
    k = ivar(kname, True)
    katom = k.args[1][0][0]
    q = ivar(ex.fresh('q'), True)
    qatom = q.args[1][0][0]
    phis = [ins[1] for ins in fr.fn.blocks[header] if ins[0] == 'phi']
    rid = ex.fresh('rec')
    slots = {}
    s0 = st0.clone()
    for m in s0.mem.values():
        if not isinstance(m, Flat):
            for c in m.leaf.values():
                ex.fences[id(c)] = c
    for p in phis:
        v = env0[p]
        slots[('phi', p)] = dict(v0=v)
    events = []

    def backs(env, st):
        res = iterate(ex, fr, header, body, prev, dict(env), st)
        if rotate:
            res = [x for o in res for x in (after(o) if o.kind == 'back' else [o])]
        out = []
        for o in res:
            if o.kind == 'back':
                p, e2 = o.info
                out.append((ex.phis(fr, header, p, e2, o.st), o.st, p, e2))
        return res, out

    def after(o):
        nxt = ended(ex, fr, header, body, o)
        return nxt if nxt and all(x.kind == 'exit' for x in nxt) else [o]

    def add_mods(before, after):
        new = False
        for r, m in after.mem.items():
            b = before.mem.get(r)
            if b is None or b is m:
                continue
            if isinstance(m, Flat):
                if m.fills != b.fills and ('fill', r) not in slots:
                    if r not in fr.allocs:
                        raise NoInvariant('block fill in loop')
                    slots[('fill', r)] = {}
                    new = True
                for o, (v, z) in m.cells.items():
                    if ('cell', r, o) in slots or ('fill', r) in slots:
                        continue
                    bv = peek(ex, before, r, o, z, v)
                    if bv is not v and bv != v:
                        slots[('cell', r, o)] = dict(v0=peek(ex, s0, r, o, z, v), size=z, like=v)
                        new = True
            else:
                for l, c in m.leaf.items():
                    if c is not b.leaf[l] and c != b.leaf[l] and ('arr', r, l) not in slots:
                        slots[('arr', r, l)] = dict(base=s0.mem[r].leaf[l])
                        new = True
        for e in after.events[len(before.events):]:
            if e not in events:
                events.append(e)
                new = True
        return new

    def slot_after(key, ph, st):
        if key[0] == 'phi':
            return ph[key[1]]
        if key[0] == 'cell':
            m = st.mem[key[1]]
            c = m.cells.get(key[2])
            return c[0] if c is not None else peek(ex, st, key[1], key[2], slots[key]['size'], slots[key]['like'])
        return st.mem[key[1]].leaf[key[2]]

    def classify(first):
        """strides from the first iteration"""
        for key, d in slots.items():
            if key[0] == 'fill' or 'kind' in d:
                continue
            vals = [slot_after(key, ph, st) for ph, st, _, _ in first]
            if key[0] == 'arr':
                sts = [tops(v, d['base']) for v in vals]
                if any(s is None for s in sts):
                    raise NoInvariant('array update is not a sequence of stores')
                n = {tuple(i for i, _ in s) for s in sts}
                if len(n) != 1:
                    raise NoInvariant('array stores differ between paths')
                d['kind'] = 'range'
                d['idx0'] = list(n.pop())
                d['stride'] = [None] * len(d['idx0'])
                d['val'] = [None] * len(d['idx0'])
                continue
            v0 = d['v0']
            if all(v is v0 or v == v0 for v in vals):
                d['kind'] = 'same'
                continue
            if isinstance(v0, Ptr) or (isinstance(v0, T) and v0.sort == 'i'):
                diffs = set()
                for v in vals:
                    if isinstance(v0, Ptr):
                        if not isinstance(v, Ptr) or v.reg != v0.reg:
                            raise NoInvariant('pointer changes its object')
                        diffs.add(isub(v.off, v0.off))
                    else:
                        diffs.add(isub(v, v0))
                if len(diffs) != 1 or not tm.isconst(list(diffs)[0]):
                    raise NoInvariant('integer %r does not move linearly' % (key,))
                d['kind'] = 'lin'
                d['stride'] = tm.ival(diffs.pop())
            elif isinstance(v0, T) and v0.sort == 'b':
                raise NoInvariant('boolean changes in loop')
            else:
                if any(isinstance(v, (Ptr, tuple)) or (isinstance(v, T) and v.sort != 'f') for v in vals):
                    if v0 is UNDEF:
                        d['kind'] = 'undef'
                        continue
                    raise NoInvariant('unsupported loop variable')
                d['kind'] = 'rec'

    def generic(kk, final):
        """state at the beginning of iteration kk"""
        st = s0.clone()
        env = dict(env0)
        for key, d in slots.items():
            if key[0] == 'fill':
                st.mem[key[1]] = Flat()
                continue
            kd = d['kind']
            if key[0] == 'arr':
                ch = d['base']
                for j, i0 in enumerate(d['idx0']):
                    val = d['val'][j]
                    if val is None:
                        val = mk('fn', ('hole%s.%d' % ('.'.join(map(str, key[1:])), j), k), 'f')
                    # the bound variable is distinct from the ghost counter, which is substituted at the exit
                    ch = ('range', ch, qatom, kk, i0, d['stride'][j] if d['stride'][j] is not None else 1, vsubst(val, {katom: q}))
                if final or all(s is not None for s in d['stride']):
                    st.wr(key[1]).leaf[key[2]] = ch
                else:
                    st.wr(key[1]).leaf[key[2]] = ('base', 'hole:%s.%s' % (key[1], key[2]))
                continue
            v0 = d['v0']
            if kd == 'same':
                v = v0
            elif kd == 'lin':
                v = v0.plus(imul(kk, IC(d['stride']))) if isinstance(v0, Ptr) else iadd(v0, imul(kk, IC(d['stride'])))
            elif kd == 'flin':
                v = v0 + i2f(kk) * d['stride']
            elif kd == 'undef':
                v = UNDEF
            else:
                v = mk('rec', (rid, key, kk), 'f')
            if key[0] == 'phi':
                env[key[1]] = v
            else:
                if v is UNDEF:
                    st.wr(key[1]).cells.pop(key[2], None)
                else:
                    st.wr(key[1]).cells[key[2]] = (v, d['size'])
        for e in events:
            if e not in st.events:
                st.events = st.events + (e,)
        return env, st

    # ---- pass A: first iteration from the entry state
    collect = ex.collect
    ex.collect = False
    obs0 = list(ex.obs)
    try:
        a0 = st0.clone()
        res, bk = backs(env0, a0)
        if not bk:
            raise NoInvariant('loop body never repeats')
        for ph, st, _, _ in bk:
            add_mods(s0, st)
        classify(bk)
        # ---- pass B: arbitrary iteration
        inv = []

        def guarded(gen):
            return gen

        for rnd in range(8):
            env, st = generic(k, False)
            tm.RECS[rid] = (katom, {})
            for c in inv:
                st.assume(c)
            before = st.clone()
            res, bk = backs(env, st)
            if not bk:
                raise NoInvariant('loop body infeasible')
            new = False
            for ph, s, _, _ in bk:
                new = add_mods(before, s) or new
            if new:
                env1, st1 = dict(env0), st0.clone()
                _, b1 = backs(env1, st1)
                classify(b1)
                continue
            # check ints, gather strides of the arrays
            changed = False
            for key, d in slots.items():
                if key[0] == 'fill':
                    continue
                if d['kind'] == 'same':
                    cur = env[key[1]] if key[0] == 'phi' else d['v0']
                    for ph, s, _, _ in bk:
                        v = slot_after(key, ph, s)
                        if not (v is cur or v == cur):
                            if isinstance(cur, T) and cur.sort == 'f':
                                d['kind'] = 'rec'
                            elif isinstance(cur, T) and cur.sort == 'i' and tm.isconst(isub(v, cur)):
                                d['kind'], d['stride'] = 'lin', tm.ival(isub(v, cur))
                            else:
                                raise NoInvariant('slot %r changes later' % (key,))
                            changed = True
                            break
                elif d['kind'] == 'range':
                    base = before.mem[key[1]].leaf[key[2]]
                    sts = [tops(slot_after(key, ph, s), base) for ph, s, _, _ in bk]
                    if any(x is None for x in sts) or len({tuple(i for i, _ in x) for x in sts}) != 1 or \
                            len(sts[0]) != len(d['idx0']):
                        raise NoInvariant('array stores vary between iterations')
                    for j, i0 in enumerate(d['idx0']):
                        df = isub(sts[0][j][0], i0)
                        cst, items = df.args
                        if df is IC(0):
                            sd = 0
                        elif cst == 0 and len(items) == 1 and items[0][0] is katom:
                            sd = items[0][1]
                        else:
                            raise NoInvariant('store index %r is not linear in the iteration' % (sts[0][j][0],))
                        if sd == 0:
                            raise NoInvariant('repeated store to one element')
                        if d['stride'][j] is None:
                            d['stride'][j] = sd
                            changed = True
                        elif d['stride'][j] != sd:
                            raise NoInvariant('stride')
            if changed:
                continue
            # values as functions of k
            merged = merge(ex, before, bk, slots, slot_after)
            stable = True
            for key, d in slots.items():
                if key[0] == 'arr':
                    base = before.mem[key[1]].leaf[key[2]]
                    vs = [[v for _, v in tops(slot_after(key, ph, s), base)] for ph, s, _, _ in bk]
                    for j in range(len(d['idx0'])):
                        val = pick(before, bk, [v[j] for v in vs])
                        if has_hole(val):
                            raise NoInvariant('loop-carried array dependency')
                        if d['val'][j] is None or d['val'][j] is not val:
                            if d['val'][j] is not None:
                                stable = stable and False
                            d['val'][j] = val
                            stable = False
            comps = {}
            for key, d in slots.items():
                if key[0] != 'fill' and d['kind'] == 'rec':
                    comps[key] = (d['v0'], merged[key])
            if tm.mode() == 'R':
                # a variable to which every iteration adds the same amount
                for key in list(comps):
                    dl = growth(comps[key][1], mk('rec', (rid, key, k), 'f'))
                    if dl is not None and not atoms_of(dl, lambda x: x is katom or x.op == 'rec' and x.args[0] == rid):
                        slots[key]['kind'], slots[key]['stride'] = 'flin', dl
                        changed = True
            if changed:
                continue
            old = {key: d.get('step') for key, d in slots.items()}
            for key in comps:
                if slots[key].get('step') is not comps[key][1]:
                    slots[key]['step'] = comps[key][1]
                    stable = False
            # integer invariants
            cand = candidates(k, katom, before, bk)
            good = []
            for c in cand:
                if c in inv:
                    good.append(c)
                    continue
                c0 = subst(c, {katom: IC(0)})
                if smt.entails(s0.pc, c0) and all(smt.entails(s.pc + (c,), subst(c, {katom: iadd(k, IC(1))})) for _, s, _, _ in bk):
                    good.append(c)
            if len(good) != len(inv):
                stable = False
            inv = good
            if stable:
                break
        else:
            raise NoInvariant('no fixpoint')
    finally:
        ex.collect = collect
        ex.obs = obs0
    tm.RECS[rid] = (katom, {key: (d['v0'], d['step']) for key, d in slots.items() if key[0] != 'fill' and d['kind'] == 'rec'})

    # ---- pass C: final generic iteration, with obligations
    env, st = generic(k, True)
    # the facts established by completed iterations
    j = ivar(ex.fresh('j'), True)
    jat = j.args[1][0][0]
    conds = []
    for ph, s, _, _ in bk:
        conds.append(an(*[c for c in s.pc if c not in before.pc]))
    cont = orr(*conds) if len(conds) > 1 else conds[0]
    # quantified floating point facts are only useful as schemas
    for c in inv:
        st.assume(c)
    ip = int_part(cont)
    if ip is not TRUE:
        g1 = subst(ip, {katom: isub(k, IC(1))})
        st.assume(orr(ile(k, IC(0)), g1))
        g0 = subst(ip, {katom: IC(0)})
        st.assume(orr(ile(k, IC(0)), g0))
    st.schemas = st.schemas + ((jat, IC(0), k, subst(cont, {katom: j})),)
    gpc = st.clone()
    res, bk2 = backs(env, st)
    # preservation
    env1, st1 = generic(iadd(k, IC(1)), True)
    check_preserved(ex, fr, gpc, bk2, slots, slot_after, env1, st1, rid, katom, k, merge)
    ex.loops_done[(fr.fn.dem, header)] = dict(slots=len(slots), inv=[show(c) for c in inv])
    outs, work = [], []
    for o in res:
        if o.kind == 'back':
            continue
        if o.kind == 'exit':
            p, label, e2 = o.info
            for m in solve(k, katom, o.st):
                if m is None:
                    work.append((label, p, e2, o.st))
                else:
                    s2 = o.st.subst(m)
                    if FALSE in s2.pc or not smt.feasible([c for c in s2.pc if c.op in ('ile0', 'ieq0', 'not', 'and')]):
                        continue
                    work.append((label, p, {a: vsubst(b, m) for a, b in e2.items()}, s2))
        else:
            outs.append(o)
    return outs, work


def growth(step, x):
    """d if step is x + d"""
    if step.op == 'fadd':
        a, b = step.args
        return b if a is x else a if b is x else None
    if step.op == 'fsub' and step.args[0] is x:
        return -step.args[1]
    return None


def has_hole(v):
    if not isinstance(v, T):
        return False
    return bool(atoms_of(v, lambda x: x.op == 'fn' and x.args[0].startswith('hole') or
                         x.op in ('sel', 'seli') and str(x.args[0]).startswith('hole:')))


def delta(before, s):
    return an(*[c for c in s.pc if c not in before.pc])


def pick(before, bk, vals):
    v = vals[-1]
    if all(x is v or x == v for x in vals):
        return v
    if not all(isinstance(x, T) for x in vals):
        raise NoInvariant('paths disagree')
    out = v
    conds = [delta(before, s) for _, s, _, _ in bk]
    # a condition common to all paths is irrelevant for the choice
    common = None
    for c in conds:
        xs = set(c.args if c.op == 'and' else (c,))
        common = xs if common is None else common & xs
    for x, c in list(zip(vals, conds))[-2::-1]:
        xs = [y for y in (c.args if c.op == 'and' else (c,)) if y not in common]
        out = ite(an(*xs), x, out)
    return out


def merge(ex, before, bk, slots, slot_after):
    out = {}
    for key, d in slots.items():
        if key[0] in ('fill', 'arr') or d['kind'] != 'rec':
            continue
        vals = [slot_after(key, ph, s) for ph, s, _, _ in bk]
        if any(v is UNDEF for v in vals):
            raise NoInvariant('undefined accumulator')
        out[key] = pick(before, bk, vals)
    return out


def int_part(c):
    """weakening of c to its integer conjuncts"""
    def isint(x):
        return x.sort == 'b' and not atoms_of(x, lambda y: y.sort == 'f' or y.op in ('bvar', 'fnan'))
    if isint(c):
        return c
    if c.op == 'and':
        return an(*[x for x in c.args if isint(x)])
    if c.op == 'not' and c.args[0].op == 'and':
        # a disjunction: keep conjuncts common to all disjuncts
        ds = [nt(x) for x in c.args[0].args]
        common = None
        for d in ds:
            xs = set(d.args if d.op == 'and' else (d,))
            common = xs if common is None else common & xs
        return an(*[x for x in common or () if isint(x)])
    return TRUE


def candidates(k, katom, before, bk):
    """k <= bound for every guard that is linear in k"""
    out = []
    for _, s, _, _ in bk:
        for c in s.pc:
            if c in before.pc:
                continue
            b = None
            if c.op == 'ile0':
                b = bound(c.args[0], katom)
            elif c.op == 'not' and c.args[0].op == 'ieq0':
                b = bound(c.args[0].args[0], katom)
                if b is None:
                    b = bound(imul(c.args[0].args[0], IC(-1)), katom)
                if b is not None:
                    b = isub(b, IC(1))
            if b is not None:
                x = ile(k, iadd(b, IC(1)))
                if x not in out and x is not TRUE:
                    out.append(x)
    return out


def bound(t, katom):
    """t<=0 with t = k + rest  ->  k <= -rest"""
    d = dict(t.args[1])
    c = d.get(katom)
    if c == 1 and not any(katom in atoms_of(a, lambda x: x is katom) for a in d if a is not katom):
        rest = isub(t, tm.iatom(katom))
        return imul(rest, IC(-1))
    return None


def solve(k, katom, st):
    """express the iteration counter at a loop exit"""
    cands = []
    for c in st.pc:
        t = None
        if c.op in ('ile0', 'ieq0'):
            t = c.args[0]
        if t is None:
            continue
        d = dict(t.args[1])
        cf = d.get(katom)
        if cf in (1, -1):
            rest = isub(t, imul(k, IC(cf)))
            e = imul(rest, IC(-cf))
            if not atoms_of(e, lambda x: x is katom):
                for e2 in (e, iadd(e, IC(1)), isub(e, IC(1))):
                    if e2 not in cands:
                        cands.append(e2)
    pc = [c for c in st.pc if c.op in ('ile0', 'ieq0', 'not', 'and')]
    if smt.entails(pc, ieq(k, IC(0))):
        return [{katom: IC(0)}]
    for e in cands:
        if smt.entails(pc, ieq(k, e)):
            return [{katom: e}]
    for e in cands:
        if smt.entails(pc, orr(ieq(k, e), ieq(k, IC(0)))):
            return [{katom: e}, {katom: IC(0)}]
    return [None]


def check_preserved(ex, fr, gpc, bk, slots, slot_after, env1, st1, rid, katom, k, merge):
    for n, (ph, s, _, _) in enumerate(bk):
        for key, d in slots.items():
            if key[0] == 'fill':
                continue
            v = slot_after(key, ph, s)
            if key[0] == 'arr':
                if not absorb(ex, s, v, d, k, katom, gpc.mem[key[1]].leaf[key[2]]):
                    raise NoInvariant('array invariant is not preserved')
                continue
            kd = d['kind']
            if kd == 'flin':
                # (v0 + k d) + d = v0 + (k + 1) d
                if growth(v, d['v0'] + i2f(k) * d['stride']) is not d['stride']:
                    raise NoInvariant('%r does not grow steadily' % (key,))
                continue
            if kd in ('same', 'lin'):
                want = env1[key[1]] if key[0] == 'phi' else st1.mem[key[1]].cells[key[2]][0]
                if v is want or v == want:
                    continue
                if isinstance(v, T) and v.sort == 'i' and smt.entails(s.pc, ieq(v, want)):
                    continue
                if isinstance(v, Ptr) and v.reg == want.reg and smt.entails(s.pc, ieq(v.off, want.off)):
                    continue
                raise NoInvariant('%r is not preserved' % (key,))
        # no slot outside the invariant may change
        for r, m in s.mem.items():
            g = gpc.mem.get(r)
            if g is None or g is m:
                continue
            if isinstance(m, Flat):
                if ('fill', r) in slots:
                    continue
                if m.fills != g.fills:
                    raise NoInvariant('fill')
                for o, (v, z) in m.cells.items():
                    if ('cell', r, o) in slots:
                        continue
                    bv = peek(ex, gpc, r, o, z, v)
                    if not (bv is v or bv == v):
                        raise NoInvariant('unexpected change of %s+%d' % (r, o))
            else:
                for l, c in m.leaf.items():
                    if ('arr', r, l) not in slots and c != g.leaf[l]:
                        raise NoInvariant('unexpected array change')
    # float steps are definitional: the merged values are those of this pass
    for key, d in slots.items():
        if key[0] != 'fill' and d['kind'] == 'rec':
            vals = [slot_after(key, ph, s) for ph, s, _, _ in bk]
            if pick(gpc, bk, vals) is not d['step']:
                if len({id(v) for v in vals}) == 1 and vals[0] is d['step']:
                    continue
                raise NoInvariant('accumulator step changed')


def absorb(ex, st, ch, d, k, katom, base):
    """ch = stores on top of the ranges of the generic state; show that they extend every range by one"""
    sts = tops(ch, base)
    if sts is None or len(sts) != len(d['idx0']):
        return False
    for j, (i, v) in enumerate(sts):
        want = iadd(d['idx0'][j], imul(k, IC(d['stride'][j])))
        if not (i is want or smt.entails(st.pc, ieq(i, want))):
            return False
        w = subst(d['val'][j], {katom: k}) if isinstance(d['val'][j], T) else d['val'][j]
        # (values of different paths are merged by ite; each path must agree under its condition)
        if not (v is w or agree(st, v, w)):
            return False
        # this store happens after the earlier iterations of the ranges above it
        for l in range(j + 1, len(sts)):
            s1, s2 = d['stride'][l], d['stride'][j]
            df = isub(want, d['idx0'][l])
            c, items = df.args
            g = abs(s1)
            if all(x % g == 0 for _, x in items) and c % g:
                continue
            q = ivar('q!', True)
            cond = an(ile(IC(0), q), ilt(q, k), ieq(iadd(d['idx0'][l], imul(q, IC(s1))), want))
            if not smt.entails(list(st.pc) + [cond], FALSE) and smt.check(list(st.pc) + [cond]) != 'unsat':
                return False
    return True


def agree(st, v, w, depth=0):
    if v is w or v == w:
        return True
    if not isinstance(w, T) or depth > 40:
        return False
    cs = atoms_of(w, lambda x: x.op == 'ite')
    if not cs:
        return False
    c = cs[-1].args[0]
    # decide the conditions of the merged value on this path
    for it in cs:
        c = it.args[0]
        if c in st.pc or smt.entails(st.pc, c):
            return agree(st, v, subst(w, {it: it.args[1]}), depth + 1)
        if nt(c) in st.pc or smt.entails(st.pc, nt(c)):
            return agree(st, v, subst(w, {it: it.args[2]}), depth + 1)
    return False
