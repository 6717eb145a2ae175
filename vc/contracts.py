"""Contracts of the three functions every pole filter setup is composed of, as stubs for the callers:
AnalogX::design, XTransform and Cascade::setLayout. Their bodies are verified against what the stubs promise
by the property modules (see DESIGN.md, Modular verification of setup)."""
from lib import *


class View:
    """where LayoutBase and Cascade keep their observable values, found by running the accessors on symbolic memory"""

    def __init__(self, ex):
        self.ex = ex
        mode, tm.MODE[0] = tm.MODE[0], 'R'
        try:
            self.find(ex)
        finally:
            tm.MODE[0] = mode

    def find(self, ex):
        st = State()
        q = ex.new_flat(st, ex.fresh('view'), size(ex, 'lay'), inp=True)
        self.num = self.off(q, one(ex, 'lay_num', [q], st).val)
        self.max = self.off(q, one(ex, 'lay_max', [q], st).val)
        self.w = self.off(q, one(ex, 'lay_w', [q], st).val)
        self.g = self.off(q, one(ex, 'lay_g', [q], st).val)
        st = State()
        a = ex.new_array(st, ex.fresh('va'), ex.mod.named('struct.Iir::PoleZeroPair'), ivar('n', True))
        q = region(ex, st, 'lay', ex.fresh('view'))
        st = one(ex, 'lay_new', [q, ivar('n', True), a], st).st
        self.pair = [o for o, (v, z) in st.mem[q.reg].cells.items() if isinstance(v, Ptr) and v.reg == a.reg][0]
        st = State()
        q = ex.new_flat(st, ex.fresh('view'), size(ex, 'cas'), inp=True)
        self.cnum = self.off(q, one(ex, 'cas_num', [q], st).val)
        st = State()
        a = ex.new_array(st, ex.fresh('va'), ex.mod.named('class.Iir::Biquad'), ivar('n', True))
        q = region(ex, st, 'cas', ex.fresh('view'))
        st = one(ex, 'cas_new', [q, ivar('n', True), a], st).st
        self.stages = [o for o, (v, z) in st.mem[q.reg].cells.items() if isinstance(v, Ptr) and v.reg == a.reg][0]

    def off(self, q, t):
        fv_ = [x for x in free(t)]
        for x in fv_:
            s = str(x)
            if q.reg + '+' in s:
                return int(s.split(q.reg + '+')[1].split(',')[0].rstrip(")'"))
        raise Unsupported('accessor of a layout does not return a member')

    def ld(self, st, p, o, ty):
        return self.ex.load(st, p.plus(o), ty)


I32, F64 = ir.Ty('i', 32), ir.Ty('double')


def wipe(ex, st, p, nm):
    """arbitrary contents of the array p points to"""
    r = ex.regs[p.reg]
    if r.kind == 'flat' and getattr(ex, 'keepflat', False):
        return      # the caller looks at pointers and counts only
    if r.kind == 'flat':
        raise Unsupported('flat storage')
    w = st.wr(p.reg)
    for o, ty in r.leaves:
        w.leaf[o] = ('base', '%s.%d' % (nm, o))


class Stubs:
    """light contracts: which arguments reach design, transform and setLayout, and in which order.
    mayfail: each of them may throw as well as return."""

    def __init__(self, ex, key, mayfail=True):
        self.ex, self.key = ex, key
        ns, c, fr, exr = FAM[key]
        self.v = View(ex)
        self.calls = []
        self.mayfail = mayfail
        ex.contracts = dict(ex.contracts)
        for an_, k in (('AnalogLowPass', len(exr)), ('AnalogLowShelf', len(exr))):
            ex.contracts['Iir::%s::%s::design(int%s)' % (ns, an_, ', double' * k)] = self.design
        for t, k in (('LowPass', 1), ('HighPass', 1), ('BandPass', 2), ('BandStop', 2)):
            n = 'Iir::%sTransform' % t
            ex.contracts['%s::%sTransform(%sIir::LayoutBase&, Iir::LayoutBase const&)' % (n, t, 'double, ' * k)] = self.transform(t, k)
        ex.contracts['Iir::Cascade::setLayout(Iir::LayoutBase const&)'] = self.layout

    def rec(self, st, what, *x):
        self.calls.append((what,) + x)
        st.event('call', len(self.calls) - 1)

    def out(self, st, what):
        r = [sym.Outcome('ret', st)]
        if self.mayfail:
            r.append(sym.Outcome('throw', st.clone(), None, 'by ' + what))
        return r

    def design(self, ex, st, av):
        v = self.v
        q, n = av[0], av[1]
        self.rec(st, 'design', q, n, av[2:], st.clone())
        i = len(self.calls)
        fail = st.clone()
        ex.store(st, q.plus(v.num), I32, n)
        st.assume(ile(IC(1), n))
        ex.store(st, q.plus(v.w), F64, fvar('dW%d' % i))
        ex.store(st, q.plus(v.g), F64, fvar('dG%d' % i))
        wipe(ex, st, ex.load(st, q.plus(v.pair), ir.PTR), 'D%d' % i)
        ex.store(fail, q.plus(v.num), I32, ivar('dn%d' % i, True))
        wipe(ex, fail, ex.load(fail, q.plus(v.pair), ir.PTR), 'DF%d' % i)
        return [sym.Outcome('ret', st)] + ([sym.Outcome('throw', fail, None, 'by design')] if self.mayfail else [])

    def transform(self, t, k):
        def f(ex, st, av):
            v = self.v
            dig, an_ = av[1 + k], av[2 + k]
            i = len(self.calls) + 1
            self.rec(st, 'transform', t, av[1:1 + k], dig, an_, st.clone())
            fail = st.clone()
            n = ex.load(st, an_.plus(v.num), I32)
            ex.store(st, dig.plus(v.num), I32, imul(n, IC(k)))
            ex.store(st, dig.plus(v.w), F64, fvar('tW%d' % i))
            ex.store(st, dig.plus(v.g), F64, fvar('tG%d' % i))
            wipe(ex, st, ex.load(st, dig.plus(v.pair), ir.PTR), 'T%d' % i)
            ex.store(fail, dig.plus(v.num), I32, ivar('tn%d' % i, True))
            return [sym.Outcome('ret', st)] + ([sym.Outcome('throw', fail, None, 'by transform')] if self.mayfail else [])
        return f

    def layout(self, ex, st, av):
        v = self.v
        q, l = av
        i = len(self.calls) + 1
        self.rec(st, 'layout', q, l, st.clone())
        fail = st.clone()
        n = ex.load(st, l.plus(v.num), I32)
        ex.store(st, q.plus(v.cnum), I32, idiv(iadd(n, IC(1)), IC(2)))
        wipe(ex, st, ex.load(st, q.plus(v.stages), ir.PTR), 'L%d' % i)
        wipe(ex, fail, ex.load(fail, q.plus(v.stages), ir.PTR), 'LF%d' % i)
        return [sym.Outcome('ret', st)] + ([sym.Outcome('throw', fail, None, 'by setLayout')] if self.mayfail else [])


class Setup:
    """one run of op_<key>_setup against the light contracts"""

    def __init__(self, ck, key, arb=True, maxorder=None):
        self.ck, self.key = ck, key
        self.ns, self.c, self.fr, self.exr = FAM[key]
        self.ex = ex = Executor(ck.m)
        st = State()
        self.q, self.d, st = opened(ex, st, key, maxorder=maxorder, arb=arb)
        self.n = ivar('n')
        st.assume(ile(self.n, self.d['N']))
        self.f = [fvar(x) for x in self.fr]
        self.e = [fvar(x) for x in self.exr]
        self.s = Stubs(ex, key)
        self.st0 = st.clone()
        self.outs = run(ex, 'op_%s_setup' % key, [self.q, self.n] + self.f + self.e, st)
        ck.use(ex)

    def calls(self, o):
        return [self.s.calls[e[1]] for e in o.st.events if e[0] == 'call']


TR = {'LowPass': 'LowPass', 'HighPass': 'HighPass', 'BandPass': 'BandPass', 'BandStop': 'BandStop', 'LowShelf': 'LowPass', 'HighShelf': 'HighPass', 'BandShelf': 'BandPass'}
