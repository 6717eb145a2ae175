"""Symbolic executor / verification condition generator over LLVM IR.

A function body is executed once per feasible path from a symbolic pre-state.
Calls to functions under contract are replaced by the contract, other library
functions are inlined, loops are replaced by inferred inductive invariants
whose preservation is checked (see Loop summaries), bounds are obligations."""
import itertools, sys
from term import *
import term as tm
import ir
import smt
import alg
import statics

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('reg', 'off')

    def __init__(self, reg, off=None):
        self.reg = reg
        self.off = IC(0) if off is None else off

    def __repr__(self):
        return '&%s+%r' % (self.reg, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.reg == self.reg and o.off is self.off

    def __hash__(self):
        return hash((self.reg, self.off))

    def plus(self, d):
        return Ptr(self.reg, iadd(self.off, il(d)))


NULL = Ptr(None)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()

# ------------------------------------------------------------------ array values
# chains are tuples so that they compare structurally
# ('base', name) | ('store', prev, idx, val) | ('range', prev, kvar, n, i0, stride, val)
# ('copy', prev, ...) is not needed


def ch_subst(ch, m):
    if ch[0] == 'base':
        return ch
    if ch[0] == 'store':
        return ('store', ch_subst(ch[1], m), subst(ch[2], m), vsubst(ch[3], m))
    return ('range', ch_subst(ch[1], m), ch[2], subst(ch[3], m), subst(ch[4], m), ch[5], vsubst(ch[6], m))


def vsubst(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Ptr):
        return Ptr(v.reg, subst(v.off, m))
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    return v


class Region:
    """static description of a memory region"""

    def __init__(self, name, kind, size=None, elem=None, esize=None, length=None, inp=False, leaves=None, writable=True):
        self.name, self.kind, self.size, self.elem, self.esize = name, kind, size, elem, esize
        self.length, self.inp, self.leaves, self.writable = length, inp, leaves, writable


class Flat:
    __slots__ = ('cells', 'fills')

    def __init__(self, cells=None, fills=None):
        self.cells = dict(cells) if cells else {}
        self.fills = list(fills) if fills else []

    def copy(self):
        return Flat(self.cells, self.fills)


class Arr:
    __slots__ = ('leaf',)

    def __init__(self, leaf=None):
        self.leaf = dict(leaf) if leaf else {}

    def copy(self):
        return Arr(self.leaf)


class State:
    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.schemas = ()
        self.events = ()

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc, s.schemas, s.events = self.pc, self.schemas, self.events
        return s

    def wr(self, reg):
        m = self.mem[reg].copy()
        self.mem[reg] = m
        return m

    def assume(self, c):
        if c is TRUE:
            return
        for x in (c.args if c.op == 'and' else (c,)):
            if x not in self.pc:
                self.pc = self.pc + (x,)

    def event(self, *e):
        self.events = self.events + (e,)

    def subst(self, m):
        s = State()
        for r, x in self.mem.items():
            if isinstance(x, Flat):
                s.mem[r] = Flat({o: (vsubst(v, m), z) for o, (v, z) in x.cells.items()}, x.fills)
            else:
                s.mem[r] = Arr({l: ch_subst(c, m) for l, c in x.leaf.items()})
        pcs = []
        for c in self.pc:
            c2 = subst(c, m)
            if c2 is not TRUE:
                pcs.append(c2)
        s.pc = tuple(pcs)
        s.schemas = tuple((k, subst(lo, m), subst(hi, m), subst(c, m)) for k, lo, hi, c in self.schemas)
        s.events = self.events
        return s


class Outcome:
    def __init__(self, kind, st, val=None, info=None):
        self.kind, self.st, self.val, self.info = kind, st, val, info

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.val)


class Ob:
    """a proof obligation"""

    def __init__(self, name, pc, goal, schemas=(), where=None, kind='assert'):
        self.name, self.pc, self.goal, self.schemas, self.where, self.kind = name, pc, goal, schemas, where, kind


class Frame:
    def __init__(self, fn, ex):
        self.fn = fn
        self.ex = ex
        self.allocs = set()


_loopinfo = {}


def loops_of(fn):
    r = _loopinfo.get(fn)
    if r is not None:
        return r
    ir.ensure(fn)
    succ = {}
    for l, b in fn.blocks.items():
        t = b[-1]
        if t[0] == 'br':
            succ[l] = [t[2]] if t[3] is None else [t[2], t[3]]
        elif t[0] == 'switch':
            succ[l] = [t[2]] + [x for _, x in t[3]]
        elif t[0] == 'call' and t[5]:
            succ[l] = [t[5], t[6]]
        else:
            succ[l] = []
    # dominators
    order, seen = [], set()

    def dfs(x):
        seen.add(x)
        for y in succ[x]:
            if y not in seen:
                dfs(y)
        order.append(x)
    dfs(fn.entry)
    order.reverse()
    preds = {l: [] for l in fn.blocks}
    for a in order:
        for b in succ[a]:
            preds[b].append(a)
    dom = {l: set(order) for l in order}
    dom[fn.entry] = {fn.entry}
    ch = True
    while ch:
        ch = False
        for l in order[1:]:
            ps = [dom[p] for p in preds[l] if p in seen]
            d = set.intersection(*ps) | {l} if ps else {l}
            if d != dom[l]:
                dom[l] = d
                ch = True
    loops = {}
    for u in order:
        for h in succ[u]:
            if h in dom[u]:
                body = loops.setdefault(h, {h})
                st = [u]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    _loopinfo[fn] = loops
    return loops


def vkey(v):
    if isinstance(v, Ptr):
        return ('p', v.reg, v.off)
    if isinstance(v, tuple):
        return tuple(vkey(x) for x in v)
    return v


def mkey(m):
    """contents of a region as a hashable value (mode O: without the floating point cells)"""
    if isinstance(m, Flat):
        return (frozenset((o, vkey(v), z) for o, (v, z) in m.cells.items() if v is not tm.ANY), tuple(m.fills))
    return tuple((o, chain_key(c)) for o, c in sorted(m.leaf.items()))


def chain_key(c):
    out = []
    while c[0] != 'base':
        out.append((c[0],) + tuple(vkey(x) for x in c[2:]))
        c = c[1]
    return tuple(out) + (c[1],)


def _coins(x, out):
    if isinstance(x, T):
        out.update(f for f in free(x) if isinstance(f, str) and f[:1] == '?')
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            _coins(y, out)


def distinct(outs):
    """mode O: outcomes which differ only in the way comparisons of floating point values went are one outcome"""
    seen, r = set(), []
    for o in outs:
        mem = frozenset((n, mkey(m)) for n, m in o.st.mem.items())
        v = vkey(o.val) if o.val is not tm.ANY else None
        live = set()
        _coins(mem, live)
        _coins(v, live)
        pc = [c for c in o.st.pc if not {f for f in free(c) if isinstance(f, str) and f[:1] == '?'} or any(f in live for f in free(c))]
        k = (o.kind, str(o.info), v, mem, frozenset(pc), tuple(o.st.events), tuple(o.st.schemas))
        if k in seen:
            continue
        seen.add(k)
        if len(pc) < len(o.st.pc):
            o.st.pc = tuple(pc)
        r.append(o)
    return r


class Executor:
    def __init__(self, mod, contracts=None, bounded=0):
        self.mod = mod
        self.regs = {}
        self.contracts = contracts or {}
        self.obs = []
        self.collect = True
        self.fences = {}      # array contents which a store may not replace (loops.induct counts the stores)
        self.recs = {}
        self.n = itertools.count(1)
        self.inlined = set()
        self.used_contracts = set()
        self.loops_done = {}
        self.bounded = bounded
        self.unroll_symbolic = 0
        self.bound_hit = False
        self.depth = 0
        self.steps = 0
        self.allowed_externals = set()
        self.externals = set()
        self.checks = True       # generate bounds obligations
        self.overflow = False    # generate integer overflow obligations
        self.fork_limit = 4000
        self.algdecide = False   # decide comparisons of parameters with the algebraic prover
        self.abstract = None     # generalises the results of mathematical functions, see lib.Abstract

    # -------------------------------------------------------------- regions
    def fresh(self, base):
        return '%s#%d' % (base, next(self.n))

    def new_flat(self, st, name, size, inp=False, writable=True):
        if name in self.regs:
            name = self.fresh(name)
        self.regs[name] = Region(name, 'flat', size=size, inp=inp, writable=writable)
        st.mem[name] = Flat(fills=[(0, size, ('input', name, 0))] if inp else [])
        return Ptr(name)

    def new_array(self, st, name, elem, length, inp=True, writable=True):
        es = self.mod.size(elem)
        lv = self.mod.leaves(elem)
        self.regs[name] = Region(name, 'array', elem=elem, esize=es, length=il(length), inp=inp, leaves=lv, writable=writable)
        st.mem[name] = Arr({o: ('base', '%s.%d' % (name, o)) for o, _ in lv})
        return Ptr(name)

    # -------------------------------------------------------------- memory
    def member(self, cls, name, nth=None):
        """byte offset of a data member found through the debug information"""
        for m, o in self.mod.members.get(cls, []):
            if m == name:
                return o
        for b, bo in self.mod.bases.get(cls, []):
            try:
                return bo + self.member(b, name)
            except KeyError:
                pass
        if nth is not None:
            ms = self.mod.members.get(cls, [])
            if nth < len(ms):
                return ms[nth][1]
        raise KeyError('%s::%s' % (cls, name))

    def default(self, name, off, ty):
        nm = '%s+%d' % (name, off)
        if ty.k in ('double', 'float'):
            return fvar(nm)
        if ty.k == 'i':
            return bvar(nm) if ty.n == 1 else ivar(nm)
        raise Unsupported('uninitialised pointer %s' % nm)

    def zero(self, ty):
        if ty.k in ('double', 'float'):
            return literal(0.0)
        if ty.k == 'i':
            return FALSE if ty.n == 1 else IC(0)
        return NULL

    def split(self, reg, off):
        """element index and leaf offset of a byte offset into an array region"""
        r = self.regs[reg]
        es = r.esize
        c, items = off.args
        if any(k % es for _, k in items):
            raise Unsupported('unaligned symbolic offset %r in %s' % (off, reg))
        leaf = c % es
        return idiv_exact(isub(off, IC(leaf)), es), leaf

    def bound(self, st, reg, idx, what):
        r = self.regs[reg]
        g = an(ile(IC(0), idx), ilt(idx, r.length))
        if g is not TRUE and self.checks:
            self.ob('bounds:%s of %s' % (what, reg), st, g, kind='bounds')
            st.assume(g)

    def ob(self, name, st, goal, kind='assert', where=None):
        if self.collect:
            self.obs.append(Ob(name, st.pc, goal, st.schemas, where or self.cur, kind))

    def entails(self, st, c):
        if c is TRUE:
            return True
        if c is FALSE and not st.pc:
            return False
        if c in st.pc:
            return True
        if nt(c) in st.pc and c is not TRUE:
            pass
        return smt.entails(st.pc, c)

    def arr_read(self, st, ch, idx):
        while True:
            if ch[0] == 'base':
                return ch[1], idx
            if ch[0] == 'store':
                e = ieq(ch[2], idx)
                if e is TRUE or (e is not FALSE and self.entails(st, e)):
                    return None, ch[3]
                if e is FALSE or self.entails(st, nt(e)):
                    ch = ch[1]
                    continue
                return None, ('ite', e, ch[3], ch[1])
            _, prev, kv, n, i0, sd, val = ch
            d = isub(idx, i0)
            if sd == -1:
                d = imul(d, IC(-1))
                s = 1
            else:
                s = sd
            c, items = d.args
            if all(k % s == 0 for _, k in items):
                if c % s:
                    ch = prev
                    continue
                kk = idiv_exact(d, s)
                ins = an(ile(IC(0), kk), ilt(kk, n))
                if self.entails(st, ins):
                    return None, vsubst(val, {kv: kk})
                if self.entails(st, nt(ins)):
                    ch = prev
                    continue
                return None, ('ite', ins, vsubst(val, {kv: kk}), prev)
            raise Unsupported('array read with stride %d at %r' % (sd, idx))

    def arr_value(self, st, ch, idx, ty):
        if ty.k in ('double', 'float') and tm.opaque():
            return tm.ANY
        a, b = self.arr_read(st, ch, idx)
        if a is not None:
            if ty.k in ('double', 'float'):
                return sel(a, idx, 'f')
            if ty.k == 'i':
                return sel(a, idx, 'i')
            raise Unsupported('pointer load from array')
        if isinstance(b, tuple) and b and b[0] == 'ite':
            return ite(b[1], b[2], self.arr_value(st, b[3], idx, ty))
        return b

    def load(self, st, p, ty):
        if p.reg is None:
            self.ob('null dereference', st, FALSE, kind='bounds')
            raise PathEnd()
        r = self.regs.get(p.reg)
        if r is None or p.reg not in st.mem:
            raise Unsupported('load from unknown region %s' % p.reg)
        if ty.k in ('struct', 'named', 'arr'):
            offs = self.mod.layout(ty)[0] if ty.k != 'arr' else [i * self.mod.size(ty.el) for i in range(ty.n)]
            fs = self.mod.fields(ty) if ty.k != 'arr' else [ty.el] * ty.n
            return tuple(self.load(st, p.plus(o), f) for o, f in zip(offs, fs))
        if r.kind == 'array':
            idx, leaf = self.split(p.reg, p.off)
            self.bound(st, p.reg, idx, 'read')
            m = st.mem[p.reg]
            if leaf not in m.leaf:
                raise Unsupported('array leaf %d of %s' % (leaf, p.reg))
            return self.arr_value(st, m.leaf[leaf], idx, ty)
        if not isconst(p.off):
            return self.flat_symbolic(st, p, ty, None)
        return self.flat_load(st, p.reg, ival(p.off), ty)

    def flat_load(self, st, reg, off, ty):
        r = self.regs[reg]
        m = st.mem[reg]
        size = self.mod.size(ty)
        if r.size is not None and (off < 0 or off + size > r.size):
            self.ob('bounds:read of %s at offset %d size %d (object size %s)' % (reg, off, size, r.size), st, FALSE, kind='bounds')
            raise PathEnd()
        if ty.k in ('double', 'float') and tm.opaque():
            return tm.ANY
        c = m.cells.get(off)
        if c is not None:
            v, z = c
            if z == size:
                return self.cast(v, ty)
            raise Unsupported('partial load %s+%d' % (reg, off))
        for lo, hi, kind in reversed(m.fills):
            if lo <= off and off + size <= hi:
                if kind[0] == 'zero':
                    return self.zero(ty)
                if kind[0] == 'input':
                    v = self.default(kind[1], off - lo + kind[2] if kind[2] is not None else off, ty)
                    m2 = st.wr(reg)
                    m2.cells[off] = (v, size)
                    return v
            elif not (hi <= off or off + size <= lo):
                raise Unsupported('partially filled load')
        if r.kind == 'flat' and getattr(r, 'ginit', None) is not None:
            return r.ginit(off, ty)
        return UNDEF

    def cast(self, v, ty):
        if isinstance(v, T):
            if ty.k == 'i' and ty.n == 1 and v.sort == 'i':
                return ine(v, IC(0))
            if ty.k == 'i' and ty.n > 1 and v.sort == 'b':
                return ite(v, IC(1), IC(0))
        return v

    def flat_symbolic(self, st, p, ty, val):
        """access with a symbolic offset into a flat object: enumerate the feasible offsets"""
        r = self.regs[p.reg]
        size = self.mod.size(ty)
        vals = smt.enum(st.pc, p.off, 0, (r.size or 0) - size, 80)
        if vals is None:
            self.ob('bounds:symbolic offset %r into %s' % (p.off, p.reg), st,
                    an(ile(IC(0), p.off), ile(p.off, IC((r.size or 0) - size))), kind='bounds')
            st.assume(an(ile(IC(0), p.off), ile(p.off, IC((r.size or 0) - size))))
            vals = smt.enum(st.pc, p.off, 0, (r.size or 0) - size, 80)
            if vals is None:
                raise Unsupported('symbolic offset')
        if not vals:
            raise PathEnd()
        if val is None:
            out = None
            for o in vals:
                v = self.flat_load(st, p.reg, o, ty)
                if isinstance(v, Ptr) and len(vals) > 1:
                    raise Unsupported('pointer load at symbolic offset')
                out = v if out is None else ite(ieq(p.off, IC(o)), v, out)
            return out
        for o in vals:
            if len(vals) > 1:
                old = self.flat_load(st, p.reg, o, ty)
                self.flat_store(st, p.reg, o, ty, ite(ieq(p.off, IC(o)), val, old))
            else:
                self.flat_store(st, p.reg, o, ty, val)

    def flat_store(self, st, reg, off, ty, v):
        r = self.regs[reg]
        size = self.mod.size(ty)
        if r.size is not None and (off < 0 or off + size > r.size):
            self.ob('bounds:write of %s at offset %d size %d (object size %s)' % (reg, off, size, r.size), st, FALSE, kind='bounds')
            raise PathEnd()
        g = getattr(r, 'guard', None)
        if not r.writable or (g in st.mem and 0 in st.mem[g].cells):
            self.ob('frame:write to %s' % reg, st, FALSE, kind='frame')
        m = st.wr(reg)
        for o in list(m.cells):
            z = m.cells[o][1]
            if o != off and o < off + size and off < o + z:
                del m.cells[o]
        m.cells[off] = (v, size)

    def store(self, st, p, ty, v):
        if p.reg is None:
            self.ob('null dereference', st, FALSE, kind='bounds')
            raise PathEnd()
        r = self.regs.get(p.reg)
        if r is None or p.reg not in st.mem:
            raise Unsupported('store to unknown region %s' % p.reg)
        if ty.k in ('struct', 'named', 'arr'):
            offs = self.mod.layout(ty)[0] if ty.k != 'arr' else [i * self.mod.size(ty.el) for i in range(ty.n)]
            fs = self.mod.fields(ty) if ty.k != 'arr' else [ty.el] * ty.n
            if v is UNDEF:
                return
            for o, f, x in zip(offs, fs, v):
                self.store(st, p.plus(o), f, x)
            return
        if r.kind == 'array':
            idx, leaf = self.split(p.reg, p.off)
            self.bound(st, p.reg, idx, 'write')
            if ty.k in ('double', 'float') and tm.opaque():
                return
            if not r.writable:
                self.ob('frame:write to %s' % p.reg, st, FALSE, kind='frame')
            m = st.wr(p.reg)
            if leaf not in m.leaf:
                raise Unsupported('array leaf')
            ch = m.leaf[leaf]
            if ch[0] == 'store' and ch[2] is idx and id(ch) not in self.fences:
                ch = ch[1]
            m.leaf[leaf] = ('store', ch, idx, v)
            return
        if not isconst(p.off):
            return self.flat_symbolic(st, p, ty, v)
        self.flat_store(st, p.reg, ival(p.off), ty, v)

    def memset(self, st, p, byte, n):
        if p.reg is None:
            raise Unsupported('memset null')
        r = self.regs[p.reg]
        if r.kind == 'array':
            if not (isconst(n) and ival(n) % r.esize == 0 and isconst(byte) and ival(byte) == 0):
                raise Unsupported('memset array')
            for j in range(ival(n) // r.esize):
                for o, ty in r.leaves:
                    self.store(st, p.plus(j * r.esize + o), ty, self.zero(ty))
            return
        if not (isconst(p.off) and isconst(n) and isconst(byte) and ival(byte) == 0):
            raise Unsupported('memset')
        o, z = ival(p.off), ival(n)
        if r.size is not None and (o < 0 or o + z > r.size):
            self.ob('bounds:memset of %s' % p.reg, st, FALSE, kind='bounds')
            raise PathEnd()
        m = st.wr(p.reg)
        self.clear(m, o, z)
        m.fills.append((o, o + z, ('zero',)))

    def clear(self, m, o, z):
        for x in list(m.cells):
            s = m.cells[x][1]
            if x >= o and x + s <= o + z:
                del m.cells[x]
            elif x < o + z and o < x + s:
                raise Unsupported('partial overwrite')

    def memcpy(self, st, d, s, n):
        if not isconst(n):
            raise Unsupported('memcpy of symbolic length')
        z = ival(n)
        if z == 0:
            return
        rd, rs = self.regs[d.reg], self.regs[s.reg]
        if rd.kind == 'flat' and rs.kind == 'flat' and isconst(d.off) and isconst(s.off):
            do, so = ival(d.off), ival(s.off)
            for r, o in ((rd, do), (rs, so)):
                if r.size is not None and (o < 0 or o + z > r.size):
                    self.ob('bounds:memcpy of %s at %d size %d' % (r.name, o, z), st, FALSE, kind='bounds')
                    raise PathEnd()
            if not rd.writable:
                self.ob('frame:write to %s' % d.reg, st, FALSE, kind='frame')
            sm = st.mem[s.reg]
            cells = {o: c for o, c in sm.cells.items() if o >= so and o + c[1] <= so + z}
            fills = []
            for lo, hi, kind in sm.fills:
                a, b = max(lo, so), min(hi, so + z)
                if a < b:
                    k2 = kind if kind[0] == 'zero' else ('input', kind[1], kind[2] + (a - lo))
                    fills.append((a - so + do, b - so + do, k2))
            m = st.wr(d.reg)
            self.clear(m, do, z)
            m.fills.extend(fills)
            for o, c in cells.items():
                m.cells[o - so + do] = c
            return
        r = rd if rd.kind == 'array' else rs
        if r.kind != 'array':
            raise Unsupported('memcpy symbolic flat')
        base = d.off if rd.kind == 'array' else s.off
        if z % 8:
            raise Unsupported('memcpy size')
        lt = dict(r.leaves)
        _, leaf0 = self.split(r.name, base)
        o = 0
        while o < z:
            ty = lt.get((leaf0 + o) % r.esize)
            if ty is None:
                raise Unsupported('memcpy leaf')
            v = self.load(st, s.plus(o), ty)
            self.store(st, d.plus(o), ty, v)
            o += self.mod.size(ty)

    # -------------------------------------------------------------- values
    def glob(self, st, fr, name):
        g = self.mod.globals.get((fr.fn.prefix, name))
        key = (fr.fn.prefix + ':' + name) if g is not None else name
        if g is None:
            g = self.mod.globals.get(name)
        if g is None:
            if name in self.mod.fns or name in self.mod.decls:
                return ('func', name)
            raise Unsupported('global %s' % name)
        rn = '@' + key
        if rn not in self.regs:
            toks = ir.tokenize(g)
            const = 'constant' in toks[:8]
            i = 0
            while toks[i] not in ('constant', 'global'):
                i += 1
                if i >= len(toks):
                    raise Unsupported('global %s' % name)
            p = ir.P(toks, self.mod)
            p.i = i + 1
            ty = p.type()
            size = self.mod.size(ty)
            self.regs[rn] = Region(rn, 'flat', size=size, inp=not const, writable=not const)
            self.regs[rn].ginit_v = None
            self.regs[rn].const = const
            if not const:
                self.static_init(fr, name, rn, size)
            if const:
                try:
                    init = p.value(ty)
                except Exception:
                    init = None
                self.regs[rn].ginit_v = (ty, init)
        if rn not in st.mem:
            r = self.regs[rn]
            if r.inp:
                # mutable global: an unconstrained hidden input
                st.mem[rn] = Flat(fills=[(0, r.size, ('input', rn, 0))])
            else:
                m = Flat()
                if r.ginit_v:
                    self.ginit(m, 0, *r.ginit_v)
                if getattr(r, 'init_m', None):
                    m = r.init_m.copy()
                st.mem[rn] = m
        return Ptr(rn)

    def static_init(self, fr, name, rn, size):
        """statics with run-time initialisation which are constants all the same (statics.py)"""
        r = self.regs[rn]
        prefix = fr.fn.prefix if (fr.fn.prefix, name) in self.mod.globals else None
        if statics.guarded(self.mod, prefix, name):
            r.inp = False
            r.ginit_v = None
            r.init_m = Flat(fills=[(0, size, ('zero',))])
            return
        k = statics.kind(self.mod, prefix, name)
        zero = Flat(fills=[(0, size, ('zero',))])
        if k == 'local':
            r.inp = False
            r.init_m = zero
        elif k == 'global':
            r.inp = False
            r.init_m = zero
            f = next((f for f, _ in statics.uses(self.mod, prefix, name) if statics.is_init(f)))
            outs = self.call(f, [], State())
            if len(outs) == 1 and outs[0].kind == 'ret' and rn in outs[0].st.mem and statics.constant(outs[0].st.mem[rn]):
                r.init_m = outs[0].st.mem[rn]
                r.writable = False
            else:
                r.inp, r.init_m = True, None

    def static_done(self, st, p):
        """__cxa_guard_release"""
        if p.reg is None or not p.reg.startswith('@') or '_ZGV' not in p.reg:
            return
        rn = p.reg.replace('_ZGV', '_Z')
        r, g = self.regs.get(rn), self.regs.get(p.reg)
        if r is None or g.inp or rn not in st.mem:
            return
        self.flat_store(st, p.reg, 0, ir.Ty('i', 8), IC(1))
        if not statics.constant(st.mem[rn]):
            st.mem[rn] = Flat(fills=[(0, r.size, ('input', rn, 0))])
        r.guard = p.reg

    def ginit(self, m, off, ty, v):
        if v is None:
            return
        if v[0] == 'zero':
            m.fills.append((off, off + self.mod.size(ty), ('zero',)))
        elif v[0] == 'c':
            m.cells[off] = (self.const(v), self.mod.size(ty))
        elif v[0] == 'agg':
            if ty.k == 'arr':
                s = self.mod.size(ty.el)
                for j, (t, x) in enumerate(v[2]):
                    self.ginit(m, off + j * s, t, x)
            else:
                for o, (t, x) in zip(self.mod.layout(ty)[0], v[2]):
                    self.ginit(m, off + o, t, x)
        elif v[0] == 'null':
            m.cells[off] = (NULL, 8)

    def const(self, v):
        _, ty, x = v
        if ty.k == 'i':
            return B(x) if ty.n == 1 else IC(x)
        return literal(x)

    def val(self, fr, env, st, v):
        k = v[0]
        if k == 'l':
            return env[v[1]]
        if k == 'c':
            return self.const(v)
        if k == 'null':
            return NULL
        if k == 'g':
            return self.glob(st, fr, v[1])
        if k == 'undef':
            return self.undef(v[1])
        if k == 'zero':
            return self.zeroval(v[1])
        if k == 'gepc':
            return self.gep(fr, env, st, v[1], v[2], v[3])
        if k == 'agg':
            return tuple(self.val(fr, env, st, x) for _, x in v[2])
        raise Unsupported('value %r' % (v,))

    def undef(self, ty):
        if ty.k in ('struct', 'named'):
            return tuple(self.undef(f) for f in self.mod.fields(ty))
        return UNDEF

    def zeroval(self, ty):
        if ty.k in ('struct', 'named'):
            return tuple(self.zeroval(f) for f in self.mod.fields(ty))
        return self.zero(ty)

    def gep(self, fr, env, st, ty, base, idx):
        b = self.val(fr, env, st, base)
        if not isinstance(b, Ptr):
            raise Unsupported('gep on %r' % (b,))
        off = b.off
        i0 = self.val(fr, env, st, idx[0])
        if not (isconst(i0) and ival(i0) == 0):
            off = iadd(off, imul(i0, IC(self.mod.size(ty))))
        t = ty
        for ix in idx[1:]:
            iv = self.val(fr, env, st, ix)
            if t.k == 'arr':
                t = t.el
                off = iadd(off, imul(iv, IC(self.mod.size(t))))
            else:
                j = ival(iv)
                off = iadd(off, IC(self.mod.layout(t)[0][j]))
                t = self.mod.fields(t)[j]
        return Ptr(b.reg, off)

    # -------------------------------------------------------------- execution
    cur = None

    def call(self, fn, args, st):
        """execute a function body; returns outcomes 'ret' and 'throw'"""
        ir.ensure(fn)
        fr = Frame(fn, self)
        env = {}
        if len(args) != len(fn.params):
            raise Unsupported('argument count of %s' % fn.name)
        for (ty, nm, ad), a in zip(fn.params, args):
            if 'byval' in ad:
                q = self.new_flat(st, self.fresh('byval'), self.mod.size(ad['byval']))
                fr.allocs.add(q.reg)
                self.memcpy(st, q, a, IC(self.mod.size(ad['byval'])))
                a = q
            env[nm] = a
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        outs = []
        try:
            for o in self.run(fr, [(fn.entry, None, env, st)]):
                for r in fr.allocs:
                    o.st.mem.pop(r, None)
                outs.append(o)
        finally:
            self.depth -= 1
        return distinct(outs) if tm.opaque() and len(outs) > 1 else outs

    def decide(self, st, c):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in st.pc:
            return True
        n = nt(c)
        if n in st.pc:
            return False
        if c.op == 'bvar' and c.args[0][:1] == '?':
            return None
        if smt.entails(st.pc, c):
            return True
        if smt.entails(st.pc, n):
            return False
        if self.algdecide and plain(c):
            if alg.prove_cmp(st.pc, c, timeout=1000):
                return True
            if alg.prove_cmp(st.pc, n, timeout=1000):
                return False
        return None

    def run(self, fr, items, loop=None, skip_phi=False):
        """explore; yields Outcomes of kind ret/throw (and back/exit if loop is given)"""
        outs = []
        work = list(items)
        loops = loops_of(fr.fn)
        first = skip_phi
        while work:
            label, prev, env, st = work.pop()
            self.steps += 1
            if self.steps > self.fork_limit * 100:
                raise Unsupported('path explosion in %s' % fr.fn.name)
            if loop and not first:
                if label == loop[0]:
                    outs.append(Outcome('back', st, None, (prev, env)))
                    continue
                if label not in loop[1]:
                    outs.append(Outcome('exit', st, None, (prev, label, env)))
                    continue
            if label in loops and not (first and loop and label == loop[0]):
                o2, w2 = self.loop(fr, label, loops[label], prev, env, st)
                outs.extend(o2)
                work.extend(w2)
                continue
            try:
                self.block(fr, label, prev, env, st, work, outs, skip=first)
            except PathEnd:
                pass
            first = False
        return outs

    def phis(self, fr, label, prev, env, st):
        new = {}
        for ins in fr.fn.blocks[label]:
            if ins[0] != 'phi':
                break
            for v, l in ins[3]:
                if l == prev:
                    new[ins[1]] = self.val(fr, env, st, v)
                    break
            else:
                raise Unsupported('phi')
        return new

    def block(self, fr, label, prev, env, st, work, outs, skip=False, start=0):
        fn = fr.fn
        env = dict(env)
        code = fn.blocks[label]
        if not skip and start == 0:
            env.update(self.phis(fr, label, prev, env, st))
        i = start
        V = lambda v: self.val(fr, env, st, v)
        while i < len(code):
            ins = code[i]
            i += 1
            op = ins[0]
            self.cur = (fr.fn.prefix, ins[-1], fr.fn.name)
            if op == 'phi':
                continue
            if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                a, b = V(ins[3]), V(ins[4])
                if a is UNDEF or b is UNDEF:
                    raise Unsupported('use of an uninitialised value in %s' % fn.name)
                r = tm._bin(op, a, b)
                if ins[2].k == 'float' and mode() == 'R':
                    r = fn_f32(r)
                env[ins[1]] = r
            elif op == 'fneg':
                env[ins[1]] = fneg(V(ins[3]))
            elif op in ir.BIN:
                env[ins[1]] = self.intop(st, op, ins[2], V(ins[3]), V(ins[4]), ins[5])
            elif op == 'conv':
                env[ins[1]] = self.conv(st, ins[2], ins[3], V(ins[4]), ins[5])
            elif op == 'icmp':
                env[ins[1]] = self.icmp(st, ins[2], V(ins[4]), V(ins[5]), ins[3])
            elif op == 'fcmp':
                env[ins[1]] = self.fcmp(ins[2], V(ins[4]), V(ins[5]))
            elif op == 'alloca':
                n = 1
                if ins[3] is not None:
                    c = V(ins[3])
                    if not isconst(c):
                        raise Unsupported('variable alloca')
                    n = ival(c)
                p = self.new_flat(st, self.fresh(fn.dem.split('(')[0] + '.' + ins[1] if fn.dem else ins[1]), n * self.mod.size(ins[2]))
                fr.allocs.add(p.reg)
                env[ins[1]] = p
            elif op == 'load':
                p = V(ins[3])
                if not isinstance(p, Ptr):
                    raise Unsupported('load through %r' % (p,))
                env[ins[1]] = self.load(st, p, ins[2])
            elif op == 'store':
                p = V(ins[3])
                v = V(ins[2])
                if not isinstance(p, Ptr):
                    raise Unsupported('store through %r' % (p,))
                self.store(st, p, ins[1], v)
            elif op == 'getelementptr':
                env[ins[1]] = self.gep(fr, env, st, ins[2], ins[3], ins[4])
            elif op == 'extractvalue':
                x = V(ins[2])
                for j in ins[3]:
                    x = x[j]
                env[ins[1]] = x
            elif op == 'insertvalue':
                def put(agg, ix, e):
                    l = list(agg)
                    l[ix[0]] = e if len(ix) == 1 else put(l[ix[0]], ix[1:], e)
                    return tuple(l)
                a = V(ins[3])
                env[ins[1]] = put(a, ins[5], V(ins[4]))
            elif op == 'select':
                c = V(ins[3])
                a, b = V(ins[4]), V(ins[5])
                d = self.decide(st, c) if c.sort == 'b' else None
                if d is not None:
                    env[ins[1]] = a if d else b
                elif isinstance(a, T) and isinstance(b, T):
                    env[ins[1]] = ite(c, a, b)
                else:
                    st2 = st.clone()
                    st2.assume(nt(c))
                    e2 = dict(env)
                    e2[ins[1]] = b
                    self.resume_block(fr, label, prev, e2, st2, work, outs, i)
                    st.assume(c)
                    env[ins[1]] = a
            elif op == 'freeze':
                env[ins[1]] = V(ins[3])
            elif op == 'br':
                if ins[3] is None:
                    work.append((ins[2], label, env, st))
                    return
                c = V(ins[1])
                if c is UNDEF:
                    raise Unsupported('branch on uninitialised value in %s' % fn.name)
                d = self.decide(st, c)
                if d is None:
                    s2 = st.clone()
                    s2.assume(nt(c))
                    work.append((ins[3], label, env, s2))
                    st.assume(c)
                    work.append((ins[2], label, env, st))
                else:
                    work.append((ins[2] if d else ins[3], label, env, st))
                return
            elif op == 'switch':
                v = V(ins[1])
                rest = st
                for k, l in ins[3]:
                    c = ieq(v, IC(k)) if v.sort == 'i' else (v if k else nt(v))
                    d = self.decide(rest, c)
                    if d is True:
                        work.append((l, label, env, rest))
                        return
                    if d is None:
                        s2 = rest.clone()
                        s2.assume(c)
                        work.append((l, label, env, s2))
                        rest = rest.clone()
                        rest.assume(nt(c))
                work.append((ins[2], label, env, rest))
                return
            elif op == 'ret':
                outs.append(Outcome('ret', st, None if ins[2] is None else V(ins[2])))
                return
            elif op == 'unreachable':
                return
            elif op == 'landingpad':
                env[ins[1]] = (Ptr('@exception'), IC(1) if ins[2] else IC(0))
            elif op == 'resume':
                outs.append(Outcome('throw', st, None, 'resume'))
                return
            elif op == 'call':
                res = self.do_call(fr, env, st, ins)
                norm, unw = ins[5], ins[6]
                if len(res) == 1 and res[0].kind == 'ret' and norm is None:
                    st = res[0].st
                    if ins[1]:
                        env[ins[1]] = res[0].val
                    continue
                for o in res:
                    if o.kind == 'throw':
                        if unw:
                            work.append((unw, label, env, o.st))
                        else:
                            outs.append(o)
                        continue
                    e2 = dict(env)
                    if ins[1]:
                        e2[ins[1]] = o.val
                    if norm:
                        work.append((norm, label, e2, o.st))
                    else:
                        self.resume_block(fr, label, prev, e2, o.st, work, outs, i)
                return
            else:
                raise Unsupported('%s in %s: %s' % (op, fn.name, ins[2] if len(ins) > 2 else ''))

    def resume_block(self, fr, label, prev, env, st, work, outs, i):
        try:
            self.block(fr, label, prev, env, st, work, outs, start=i)
        except PathEnd:
            pass

    # -------------------------------------------------------------- scalar ops
    def intop(self, st, op, ty, a, b, flags):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg:
                return isub(a.off, b.off)
            raise Unsupported('pointer arithmetic')
        if ty.n == 1:
            if op == 'and':
                return an(a, b)
            if op == 'or':
                return orr(a, b)
            if op == 'xor':
                return orr(an(a, nt(b)), an(nt(a), b))
        if a.sort == 'b':
            a = ite(a, IC(1), IC(0))
        if b.sort == 'b':
            b = ite(b, IC(1), IC(0))
        if op in ('or', 'xor', 'lshr', 'ashr', 'shl') and isconst(a) and isconst(b):
            x, y, m = ival(a), ival(b), (1 << ty.n) - 1
            if op in ('lshr', 'ashr', 'shl') and not 0 <= y < ty.n:
                return UNDEF
            v = x | y if op == 'or' else x ^ y if op == 'xor' else x >> y if op == 'ashr' else (x & m) >> y if op == 'lshr' else x << y
            v &= m
            return IC(v - m - 1 if v >> (ty.n - 1) else v)
        if op == 'xor' and isconst(b) and ival(b) == 1:
            return isub(iadd(a, IC(1)), imul(iand(a, IC(1)), IC(2)))
        if op == 'add':
            r = iadd(a, b)
        elif op == 'sub':
            r = isub(a, b)
        elif op == 'mul':
            r = imul(a, b)
        elif op in ('sdiv', 'udiv'):
            if not isconst(b):
                self.ob('division by zero', st, ine(b, IC(0)), kind='arith')
            r = idiv(a, b)
            if r.args[1] and r.args[1][0][0].op == 'idiv' and isconst(b) and ival(b) > 0 and self.entails(st, ile(IC(0), a)):
                r = self.posdiv(st, a, ival(b), r)
            return r
        elif op in ('srem', 'urem'):
            if not isconst(b):
                self.ob('division by zero', st, ine(b, IC(0)), kind='arith')
            return irem(a, b)
        elif op == 'and':
            return iand(a, b)
        elif op == 'shl' and isconst(b):
            r = imul(a, IC(1 << ival(b)))
        elif op in ('ashr', 'lshr') and isconst(b):
            # floor division
            k = 1 << ival(b)
            if self.entails(st, ile(IC(0), a)):
                return idiv(a, IC(k))
            return iatom(mk('ifloordiv', (a, IC(k)), 'i'))
        elif op == 'or' and isconst(b) and all(c % 2 == 0 for _, c in a.args[1]) and a.args[0] % 2 == 0 and ival(b) == 1:
            r = iadd(a, b)
        elif op == 'xor' and isconst(b) and ival(b) == -1:
            r = isub(IC(-1), a)
        else:
            raise Unsupported('integer %s' % op)
        if self.overflow and 'nsw' in flags and not isconst(r):
            lim = 1 << (ty.n - 1)
            self.ob('signed overflow', st, an(ile(IC(-lim), r), ilt(r, IC(lim))), kind='arith')
        return r

    def posdiv(self, st, a, k, r):
        return r

    def conv(self, st, op, t1, v, t2):
        if v is UNDEF:
            return UNDEF
        if op == 'sitofp':
            if v.sort == 'b':
                v = ite(v, IC(-1), IC(0))
            return i2f(v)
        if op == 'uitofp':
            if v.sort == 'b':
                return ite(v, literal(1.0), literal(0.0))
            if t1.n < 64 or True:
                if not self.entails(st, ile(IC(0), v)):
                    return mk('fn', ('uitofp%d' % t1.n, v), 'f')
            return i2f(v)
        if op == 'fptrunc':
            return fn_f32(v)
        if op == 'fpext':
            return v
        if op in ('fptosi', 'fptoui'):
            return iatom(mk('f2i', (v, '%s%d' % (op, t2.n)), 'i'))
        if op in ('sext', 'zext'):
            if v.sort == 'b':
                return ite(v, IC(1 if op == 'zext' else -1), IC(0))
            if op == 'zext' and not nonneg(v):
                if not self.entails(st, ile(IC(0), v)):
                    return iatom(mk('izext', (v, t1.n), 'i'))
            return v
        if op == 'trunc':
            if t2.n == 1:
                return v if v.sort == 'b' else ine(iand(v, IC(1)), IC(0))
            if v.sort == 'b':
                return ite(v, IC(1), IC(0))
            if isconst(v):
                m = 1 << t2.n
                x = ival(v) % m
                return IC(x - m if x >= m // 2 else x)
            lim = 1 << (t2.n - 1)
            if t2.n >= 32:
                if self.overflow:
                    self.ob('integer truncation', st, an(ile(IC(-lim), v), ilt(v, IC(lim))), kind='arith')
                return v
            return iatom(mk('itrunc', (v, t2.n), 'i'))
        if op == 'bitcast':
            raise Unsupported('bitcast')
        if op == 'ptrtoint':
            return v
        raise Unsupported(op)

    def icmp(self, st, pr, a, b, ty):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported('pointer comparison')
            if a.reg != b.reg:
                if pr == 'eq':
                    return FALSE
                if pr == 'ne':
                    return TRUE
                raise Unsupported('ordering of unrelated pointers')
            a, b = a.off, b.off
        if a.sort == 'b' or b.sort == 'b':
            a = a if a.sort == 'b' else ine(a, IC(0))
            b = b if b.sort == 'b' else ine(b, IC(0))
            eq = orr(an(a, b), an(nt(a), nt(b)))
            if pr == 'eq':
                return eq
            if pr == 'ne':
                return nt(eq)
            raise Unsupported('bool comparison')
        if pr == 'eq':
            return ieq(a, b)
        if pr == 'ne':
            return ine(a, b)
        k = pr[1:]
        if pr[0] == 'u':
            if k[0] == 'g':
                a, b, k = b, a, 'l' + k[1]
            sg = []
            for x in (a, b):
                n = None if nonneg(x) or self.entails(st, ile(IC(0), x)) else ilt(x, IC(0))
                sg.append(FALSE if n is None else n)
            x, y = sg
            cmp = {'lt': ilt(a, b), 'le': ile(a, b)}[k]
            # a negative value is above every other one
            return cmp if x is y else orr(an(nt(x), y), an(nt(x), nt(y), cmp), an(x, y, cmp))
        return {'lt': ilt(a, b), 'le': ile(a, b), 'gt': ilt(b, a), 'ge': ile(b, a)}[k]

    def fcmp(self, pr, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of an uninitialised value')
        nan = orr(fisnan(a), fisnan(b))
        if mode() == 'R' and (tm._isinfc(a) or tm._isinfc(b)):
            pass
        R = {'lt': lambda: flt(a, b), 'le': lambda: fle(a, b), 'gt': lambda: flt(b, a), 'ge': lambda: fle(b, a), 'eq': lambda: feq(a, b)}
        if pr == 'uno':
            return nan
        if pr == 'ord':
            return nt(nan)
        if pr in ('true', 'false'):
            return B(pr == 'true')
        k = pr[1:]
        if pr[0] == 'o':
            if k == 'ne':
                return an(nt(feq(a, b)), nt(nan))
            return R[k]()
        if k == 'ne':
            return nt(feq(a, b))
        if k == 'eq':
            return orr(nan, feq(a, b))
        inv = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}[k]
        if mode() == 'R':
            return R[k]()
        return nt(R[inv]())

    # -------------------------------------------------------------- calls
    def do_call(self, fr, env, st, ins):
        _, dest, ty, callee, args, norm, unw, d = ins
        cv = callee
        if cv[0] != 'g':
            raise Unsupported('indirect call')
        name = cv[1]
        av = [self.val(fr, env, st, a) for _, a, _ in args]
        f = self.mod.internal.get((fr.fn.prefix, name)) or self.mod.fns.get(name)
        return self.call_named(fr, name, f, av, st, ty, args)

    def call_named(self, fr, name, f, av, st, ty, args=None):
        import builtins_ as bi
        dem = f.dem if f is not None and f.dem else self.mod.dem.get(name, name)
        c = self.contracts.get(dem)
        if c is not None:
            r = c(self, st, av)
            if r is not NotImplemented:
                self.used_contracts.add(dem)
                return r
        r = bi.call(self, fr, name, dem, av, st, ty, args)
        if r is not NotImplemented:
            return r
        if f is not None and f.blocks:
            self.inlined.add(dem)
            save = self.cur
            try:
                return self.call(f, av, st)
            finally:
                self.cur = save
        raise Unsupported('external function %s' % dem)

    # -------------------------------------------------------------- loops
    def loop(self, fr, header, body, prev, env, st):
        import loops
        return loops.handle(self, fr, header, body, prev, env, st)


class PathEnd(Exception):
    pass


def plain(c):
    """a comparison of terms over parameters and constants only"""
    return c.op in ('flt', 'fle', 'feq', 'not') and not tm.atoms_of(c, lambda x: x.op not in ('flt', 'fle', 'feq', 'not', 'fvar', 'fc', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'pi'))


def fn_f32(t):
    """rounding to single precision: uninterpreted"""
    if t.op == 'fn' and t.args[0] == 'f32':
        return t
    return fn('f32', t)


def idiv_exact(d, s):
    c, items = d.args
    return tm._lin(c // s, {a: k // s for a, k in items})
