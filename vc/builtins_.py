"""Models of the functions outside the library: libm, complex arithmetic,
memory intrinsics, exception runtime and the std::vector members used."""
import math, re
from fractions import Fraction as Fr
from term import *
import term as tm
import ir
from sym import (Ptr, NULL, UNDEF, Outcome, Unsupported, PathEnd, Region, Arr, Flat, State)

UNARY = {'sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'sinh', 'cosh', 'tanh', 'atan', 'fabs', 'asinh', 'acos',
         'asin', 'log10', 'floor', 'ceil', 'exp2', 'log2', 'acosh', 'atanh', 'cbrt', 'expm1', 'log1p',
         'trunc', 'round', 'rint', 'nearbyint'}
BINARY = {'pow', 'hypot', 'atan2', 'fmin', 'fmax', 'fmod', 'copysign'}
TRUSTED = {}


def ret(st, v=None):
    return [Outcome('ret', st, v)]


# values of the inverse functions, as multiples of pi
INVERSE = {'acos': {0: Fr(1, 2), 1: 0, -1: 1}, 'asin': {0: 0, 1: Fr(1, 2), -1: Fr(-1, 2)}, 'atan': {0: 0, 1: Fr(1, 4), -1: Fr(-1, 4)}}


def mathfn(name, a):
    if mode() == 'R':
        x = a[0]
        if name == 'sin':
            return sin(x)
        if name == 'cos':
            return cos(x)
        if name == 'tan':
            return fn('tan', x)
        if name == 'fabs':
            if tm.isfc(x):
                return FC(abs(fval(x)))
            return ite(flt(x, FC(0)), fneg(x), x)
        if name == 'exp2':
            return fn('pow', FC(2), x)
        if name == 'hypot':
            return fn('sqrt', a[0] * a[0] + a[1] * a[1])
        if name == 'fmax':
            return ite(flt(a[0], a[1]), a[1], a[0])
        if name == 'fmin':
            return ite(flt(a[1], a[0]), a[1], a[0])
        if name == 'log10':
            return fdiv(fn('log', x), LN10)
        if name == 'log2':
            return fdiv(fn('log', x), LN2)
        if name == 'asinh':
            return fn('log', x + fn('sqrt', x * x + 1))
        if name == 'expm1':
            return fn('exp', x) - 1
        if name in INVERSE and tm.isfc(x) and fval(x) in INVERSE[name]:
            return tm.PI * FC(INVERSE[name][fval(x)])
        if name == 'log1p':
            return fn('log', x + 1)
        if name == 'atan2' and tm.isfc(x) and tm.isfc(a[1]) and fval(x) == 0 and fval(a[1]) != 0:
            return FC(0) if fval(a[1]) > 0 else tm.PI
        if name == 'pow' and tm.isfc(a[1]):
            e = fval(a[1])
            if e.denominator == 1 and 0 <= e <= 4:
                r = FC(1)
                for _ in range(int(e)):
                    r = r * x
                return r
            if e.numerator == 1 and e.denominator == 2:
                return fn('sqrt', x)
    return fn(name, *a)


def cmul(a, b, c, d):
    if mode() == 'R':
        return (a * c - b * d, a * d + b * c)
    return (fn('muldc_re', a, b, c, d), fn('muldc_im', a, b, c, d))


CPLX1 = {'cexp', 'csin', 'ccos', 'csinh', 'ccosh'}


def cplx1(name, x, y):
    """complex functions of one argument, by their real and imaginary parts"""
    if name == 'cexp' and tm.isfc(x) and fval(x) == 0 and mode() != 'O':
        return (mathfn('cos', [y]), mathfn('sin', [y]))
    if mode() == 'R':
        if name == 'cexp':
            e = fn('exp', x)
            return (e * cos(y), e * sin(y))
        if name == 'csin':
            return (sin(x) * fn('cosh', y), cos(x) * fn('sinh', y))
        if name == 'ccos':
            return (cos(x) * fn('cosh', y), fneg(sin(x) * fn('sinh', y)))
        if name == 'csinh':
            return (fn('sinh', x) * cos(y), fn('cosh', x) * sin(y))
        return (fn('cosh', x) * cos(y), fn('sinh', x) * sin(y))
    return (fn(name + '_re', x, y), fn(name + '_im', x, y))


def cdiv(a, b, c, d):
    if mode() == 'R':
        if tm.isfc(d) and fval(d) == 0:
            return (a / c, b / c)
        n = c * c + d * d
        return ((a * c + b * d) / n, (b * c - a * d) / n)
    return (fn('divdc_re', a, b, c, d), fn('divdc_im', a, b, c, d))


def fpclass(x, mask):
    nan = fisnan(x)
    if mode() == 'R':
        # inputs are real numbers; only the marker itself is infinite
        inf = TRUE if x is tm.INF else orr(an(x.args[0], fpclass(x.args[1], 0x200)), an(nt(x.args[0]), fpclass(x.args[2], 0x200))) if x.op == 'ite' else FALSE
        ninf = tm.B(tm._isinfc(x) and x is not tm.INF)
    else:
        inf, ninf = feq(x, FC(math.inf)), feq(x, FC(-math.inf))
    r = FALSE
    fin = mask & 0x1F8
    if fin == 0x1F8:
        r = orr(r, nt(orr(nan, inf, ninf)))
    elif fin:
        raise Unsupported('llvm.is.fpclass of zeros, subnormals or signs')
    if mask & 3 == 3:
        r = orr(r, nan)
    elif mask & 3:
        raise Unsupported('llvm.is.fpclass of signalling NaN')
    if mask & 0x200:
        r = orr(r, inf)
    if mask & 4:
        r = orr(r, ninf)
    return r


def unmarshal(v):
    return v[0], v[1]


VEC = re.compile(r'^std::vector<Iir::PoleZeroPair, std::allocator<Iir::PoleZeroPair> ?>::(.*)$')


def vector(ex, dem, m, av, st, ty):
    m = m.strip()
    this = av[0]
    pzp = ex.mod.named('struct.Iir::PoleZeroPair')
    name = m.split('(')[0]

    def fresh(p):
        q = ex.new_array(st, ex.fresh('heap'), pzp, IC(1 << 40), inp=False)
        ex.flat_store(st, p.reg, ival(p.off), ir.PTR, q)
        ex.flat_store(st, p.reg, ival(p.off) + 8, ir.Ty('i', 64), IC(0))
    if name == 'vector':
        if '(' in m and m[m.index('('):] in ('()', '(void)'):
            fresh(this)
            return ret(st)
        if 'vector&&' in m or 'vector<' in m:
            ex.memcpy(st, this, av[1], IC(24))
            ex.clear(st.wr(av[1].reg), ival(av[1].off), 24)
            fresh(av[1])
            return ret(st)
        return NotImplemented
    if name == '~vector':
        st.event('heap', 'vector destructor')
        return ret(st)
    if name == 'reserve':
        st.event('heap', 'vector reserve')
        return ret(st)
    if name == 'clear':
        ex.flat_store(st, this.reg, ival(this.off) + 8, ir.Ty('i', 64), IC(0))
        return ret(st)
    if name.startswith('push_back') or name.startswith('emplace_back') or dem.find('emplace_back') > 0:
        data = ex.load(st, this, ir.PTR)
        n = ex.load(st, this.plus(8), ir.Ty('i', 64))
        q = data.plus(imul(n, IC(ex.regs[data.reg].esize)))
        ex.memcpy(st, q, av[1], IC(ex.regs[data.reg].esize))
        ex.store(st, this.plus(8), ir.Ty('i', 64), iadd(n, IC(1)))
        st.event('heap', 'vector push_back')
        return ret(st, q)
    if name == 'size':
        return ret(st, ex.load(st, this.plus(8), ir.Ty('i', 64)))
    if name in ('operator[]', 'at'):
        data = ex.load(st, this, ir.PTR)
        return ret(st, data.plus(imul(av[1], IC(ex.regs[data.reg].esize))))
    if name == 'back':
        data = ex.load(st, this, ir.PTR)
        n = ex.load(st, this.plus(8), ir.Ty('i', 64))
        return ret(st, data.plus(imul(isub(n, IC(1)), IC(ex.regs[data.reg].esize))))
    return NotImplemented


def call(ex, fr, name, dem, av, st, ty, args):
    if name.startswith('llvm.'):
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') or \
                name.startswith('llvm.experimental.noalias'):
            return ret(st)
        if name.startswith('llvm.threadlocal.address'):
            return ret(st, av[0])
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            ex.memcpy(st, av[0], av[1], av[2])
            return ret(st)
        if name.startswith('llvm.memset'):
            ex.memset(st, av[0], av[1], av[2])
            return ret(st)
        m = re.match(r'llvm\.(\w+)\.f64', name)
        if m:
            n = {'minnum': 'fmin', 'maxnum': 'fmax'}.get(m.group(1), m.group(1))
            if n in ('fmuladd', 'fma'):
                ex.externals.add(n)
                return ret(st, av[0] * av[1] + av[2])
            if n in UNARY or n in BINARY:
                ex.externals.add(n)
                return ret(st, mathfn(n, av))
        m = re.match(r'llvm\.(smax|smin|umax|umin)\.', name)
        if m:
            a, b = av
            c = ilt(a, b)
            return ret(st, ite(c, b, a) if m.group(1)[1:] == 'max' else ite(c, a, b))
        if name.startswith('llvm.abs.'):
            return ret(st, ite(ilt(av[0], IC(0)), isub(IC(0), av[0]), av[0]))
        if name == 'llvm.eh.typeid.for' or name.startswith('llvm.eh.typeid.for'):
            return ret(st, ivar('typeid'))
        if name == 'llvm.trap':
            st.event('abort')
            ex.ob('trap reached', st, FALSE)
            return []
        if name.startswith('llvm.is.fpclass'):
            return ret(st, fpclass(av[0], ival(av[1])))
        if name.startswith('llvm.stack'):
            raise Unsupported(name)
        m = re.match(r'llvm\.(sadd|ssub|smul)\.with\.overflow', name)
        raise Unsupported(name)
    if name in UNARY and len(av) == 1 or name in BINARY and len(av) == 2:
        ex.externals.add(name)
        v = mathfn(name, av)
        return ret(st, ex.abstract(st, name, av, v) if ex.abstract else v)
    if name == '__muldc3':
        return ret(st, cmul(*av))
    if name == '__divdc3':
        return ret(st, cdiv(*av))
    if name == 'cabs':
        ex.externals.add(name)
        if mode() == 'R':
            return ret(st, fn('sqrt', av[0] * av[0] + av[1] * av[1]))
        return ret(st, fn('cabs', *av))
    if name == 'csqrt':
        ex.externals.add(name)
        if mode() == 'R' and tm.isfc(av[1]) and fval(av[1]) == 0:
            # a real radicand: two cases
            out = []
            for c, v in ((fle(FC(0), av[0]), (sqrt(av[0]), FC(0))), (flt(av[0], FC(0)), (FC(0), sqrt(fneg(av[0]))))):
                d = ex.decide(st, c)
                if d is False:
                    continue
                s = st.clone()
                s.assume(c)
                out += ret(s, v)
            return out
        return ret(st, (fn('csqrt_re', *av), fn('csqrt_im', *av)))
    if name in CPLX1:
        ex.externals.add(name)
        return ret(st, cplx1(name, *av))
    if name in ('__cxa_allocate_exception',):
        p = ex.new_flat(st, ex.fresh('exception'), ival(av[0]))
        return ret(st, p)
    if name in ('__cxa_free_exception',):
        return ret(st)
    if name == '__cxa_throw':
        t = av[1]
        tn = t.reg if isinstance(t, Ptr) else str(t)
        return [Outcome('throw', st, None, tn.split(':')[-1].lstrip('@'))]
    if name in ('__cxa_begin_catch',):
        return ret(st, Ptr('@exception'))
    if name in ('__cxa_end_catch',):
        return ret(st)
    if name == '__cxa_rethrow':
        return [Outcome('throw', st, None, 'rethrow')]
    if name in ('_ZSt9terminatev', '__clang_call_terminate', 'abort', 'exit', '__assert_fail',
                '_ZSt21__glibcxx_assert_failPKciS0_S0_'):
        st.event('abort', name)
        ex.ob('%s reached' % name, st, FALSE)
        return []
    if re.match(r'^std::\w+::~?\w+\(', dem) and ('invalid_argument' in dem or '_error' in dem or 'exception' in dem):
        f = ex.mod.fns.get(name)
        if f is None or not f.blocks:
            return ret(st)
    m = VEC.match(dem)
    if m:
        r = vector(ex, dem, m.group(1), av, st, ty)
        if r is not NotImplemented:
            ex.externals.add(dem)
            return r
    m = re.match(r'^(?:\S+ )?std::vector<Iir::PoleZeroPair, std::allocator<Iir::PoleZeroPair> ?>::(emplace_back.*)$', dem)
    if m:
        return vector(ex, dem, 'emplace_back', av, st, ty)
    if dem.startswith('operator new') or dem.startswith('operator delete') or name in ('malloc', 'free', 'calloc', 'realloc'):
        st.event('heap', dem)
        if dem.startswith('operator new') or name in ('malloc', 'calloc'):
            if name == 'calloc':
                raise Unsupported('calloc')
            if not isconst(av[0]):
                raise Unsupported('allocation of symbolic size')
            return ret(st, ex.new_flat(st, ex.fresh('heap'), ival(av[0])))
        if name == 'realloc':
            raise Unsupported(name)
        return ret(st)
    if name in ('memcpy', 'memmove'):
        ex.memcpy(st, av[0], av[1], av[2])
        return ret(st, av[0])
    if name == 'memset':
        ex.memset(st, *av)
        return ret(st, av[0])
    if name == '__cxa_guard_acquire':
        g = ex.regs.get(av[0].reg)
        return ret(st, ivar(ex.fresh('guard')) if g is None or g.inp else IC(1))
    if name == '__cxa_guard_release':
        ex.static_done(st, av[0])
    if name in ('__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', '__gxx_personality_v0'):
        st.event('static', name)
        return ret(st, IC(0))
    return NotImplemented
