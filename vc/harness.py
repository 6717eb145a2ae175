"""Instantiation units: extern "C" entry points which call the real public interface of /repo.

They contain no logic of their own. They exist to instantiate the templates and to give
the functions of the library signatures made of scalars and pointers, so that nothing
in the checks depends on how the ABI passes a complex number or a small structure.
"""
import os

HEAD = '''#include "Iir.h"
#include <new>
#include <memory>
using namespace Iir;
'''
STATES = ['DirectFormI', 'DirectFormII', 'TransposedDirectFormII']
SHORT = {'DirectFormI': 'df1', 'DirectFormII': 'df2', 'TransposedDirectFormII': 'tdf2'}
SAMPLES = {'d': 'double', 'f': 'float', 'i': 'int', 's': 'short', 'u': 'unsigned char', 'l': 'long long'}

# class -> parameters of setupN after the frequencies; the frequencies are Hz in setup()
FAM = {}
for ns, extra, shelf in (('Butterworth', [], ['gainDb']), ('ChebyshevI', ['rippleDb'], ['gainDb', 'rippleDb']),
                         ('ChebyshevII', ['stopBandDb'], ['gainDb', 'stopBandDb'])):
    for c in ('LowPass', 'HighPass'):
        FAM[ns + '_' + c] = (ns, c, ['cutoff'], extra)
    for c in ('BandPass', 'BandStop'):
        FAM[ns + '_' + c] = (ns, c, ['center', 'width'], extra)
    for c in ('LowShelf', 'HighShelf'):
        FAM[ns + '_' + c] = (ns, c, ['cutoff'], shelf)
    FAM[ns + '_BandShelf'] = (ns, 'BandShelf', ['center', 'width'], shelf)
# RBJ: (frequency, other parameters, documented default of the last one)
RBJ = {'LowPass': (['q'], 'sqrt1_2'), 'HighPass': (['q'], 'sqrt1_2'), 'BandPass1': (['bw'], None), 'BandPass2': (['bw'], None),
       'BandStop': (['bw'], None), 'IIRNotch': (['q'], '10'), 'LowShelf': (['gain', 'slope'], '1'),
       'HighShelf': (['gain', 'slope'], '1'), 'BandShelf': (['gain', 'bw'], None), 'AllPass': (['q'], 'sqrt1_2')}


def band(key):
    return FAM[key][1].startswith('Band')


def shelf(key):
    return FAM[key][1].endswith('Shelf')


def X(sig, body):
    return 'extern "C" %s { %s }\n' % (sig, body)


def lifecycle(p, cls, copy=False):
    s = X('unsigned long %s_size()' % p, 'return sizeof(%s);' % cls)
    s += X('void %s_new(void* m)' % p, 'new (m) %s;' % cls)
    if copy:
        s += X('void %s_copy(void* m, const %s* o)' % (p, cls), 'new (m) %s(*o);' % cls)
        s += X('void %s_move(void* m, %s* o)' % (p, cls), 'new (m) %s(std::move(*o));' % cls)
        s += X('void %s_assign(%s* m, const %s* o)' % (p, cls, cls), '*m = *o;')
        s += X('void %s_delete(%s* m)' % (p, cls), 'std::_Destroy(m);')
        s += X('void %s_type()' % p, '%s x; std::_Destroy(&x);' % cls)
    return s


def queries(p, q):
    return X('void %s_response(const %s* b, double f, double* o)' % (p, q), 'complex_t c = b->response(f); o[0] = c.real(); o[1] = c.imag();') + \
        X('void %s_pz(const %s* b, std::vector<PoleZeroPair>* v)' % (p, q), 'new (v) std::vector<PoleZeroPair>(b->getPoleZeros());')


def g_core():
    s = ''
    for S in STATES:
        p = SHORT[S]
        s += lifecycle(p, S, True)
        s += X('double %s_filter(%s* s, double x, const Biquad* b)' % (p, S), 'return s->filter(x, *b);')
        s += X('double %s_bfilter(%s* s, double x, const Biquad* b)' % (p, S), 'return b->filter(x, *s);')
        s += X('void %s_reset(%s* s)' % (p, S), 's->reset();')
    s += lifecycle('bq', 'Biquad', True)
    s += X('void bq_set(Biquad* b, double a0, double a1, double a2, double b0, double b1, double b2)',
           'b->setCoefficients(a0, a1, a2, b0, b1, b2);')
    for c in ('A0', 'A1', 'A2', 'B0', 'B1', 'B2'):
        s += X('double bq_%s(const Biquad* b)' % c, 'return b->get%s();' % c)
    s += X('void bq_response(const Biquad* b, double f, double* o)', 'complex_t c = b->response(f); o[0] = c.real(); o[1] = c.imag();')
    s += X('void bq_onepole(Biquad* b, double pr, double pi, double zr, double zi)',
           'b->setOnePole(complex_t(pr, pi), complex_t(zr, zi));')
    s += X('void bq_twopole(Biquad* b, double pr, double pi, double zr, double zi, double qr, double qi, double yr, double yi)',
           'b->setTwoPole(complex_t(pr, pi), complex_t(zr, zi), complex_t(qr, qi), complex_t(yr, yi));')
    s += X('void bq_pair(Biquad* b, const PoleZeroPair* p)', 'b->setPoleZeroPair(*p);')
    s += X('void bq_form(Biquad* b, const BiquadPoleState* p)', 'b->setPoleZeroForm(*p);')
    s += X('void bq_identity(Biquad* b)', 'b->setIdentity();')
    s += X('void bq_scale(Biquad* b, double k)', 'b->applyScale(k);')
    s += X('unsigned long bps_size()', 'return sizeof(BiquadPoleState);')
    s += X('void bps_of(void* m, const Biquad* b)', 'new (m) BiquadPoleState(*b);')
    s += X('double bps_gain(const BiquadPoleState* b)', 'return b->gain;')
    s += X('unsigned long pair_size()', 'return sizeof(PoleZeroPair);')
    s += X('void pair_get(const PoleZeroPair* p, double* o)',
           'o[0] = p->poles.first.real(); o[1] = p->poles.first.imag(); o[2] = p->poles.second.real(); o[3] = p->poles.second.imag();'
           'o[4] = p->zeros.first.real(); o[5] = p->zeros.first.imag(); o[6] = p->zeros.second.real(); o[7] = p->zeros.second.imag();')
    s += X('void pair_new(void* m, double pr, double pi, double zr, double zi, double qr, double qi, double yr, double yi)',
           'new (m) PoleZeroPair(complex_t(pr, pi), complex_t(zr, zi), complex_t(qr, qi), complex_t(yr, yi));')
    s += X('void pair_new1(void* m, double pr, double pi, double zr, double zi)',
           'new (m) PoleZeroPair(complex_t(pr, pi), complex_t(zr, zi));')
    s += X('int pair_matched(const PoleZeroPair* p)', 'return p->poles.isMatchedPair();')
    s += X('int pair_isnan(const PoleZeroPair* p)', 'return p->is_nan();')
    s += X('int pair_single(const PoleZeroPair* p)', 'return p->isSinglePole();')
    s += X('void bq_pz(const Biquad* b, std::vector<PoleZeroPair>* v)', 'new (v) std::vector<PoleZeroPair>(b->getPoleZeros());')
    # layout
    s += X('unsigned long lay_size()', 'return sizeof(LayoutBase);')
    s += X('void lay_new(void* m, int n, PoleZeroPair* p)', 'new (m) LayoutBase(n, p);')
    s += X('void lay_reset(LayoutBase* l)', 'l->reset();')
    s += X('int lay_num(const LayoutBase* l)', 'return l->getNumPoles();')
    s += X('int lay_max(const LayoutBase* l)', 'return l->getMaxPoles();')
    s += X('double lay_w(const LayoutBase* l)', 'return l->getNormalW();')
    s += X('double lay_g(const LayoutBase* l)', 'return l->getNormalGain();')
    s += X('void lay_setnormal(LayoutBase* l, double w, double g)', 'l->setNormal(w, g);')
    s += X('const PoleZeroPair* lay_at(const LayoutBase* l, int i)', 'return &(*l)[i];')
    s += X('const PoleZeroPair* lay_pair(const LayoutBase* l, int i)', 'return &l->getPair(i);')
    s += X('void lay_add1(LayoutBase* l, double pr, double pi, double zr, double zi)', 'l->add(complex_t(pr, pi), complex_t(zr, zi));')
    s += X('void lay_addc(LayoutBase* l, double pr, double pi, double zr, double zi)',
           'l->addPoleZeroConjugatePairs(complex_t(pr, pi), complex_t(zr, zi));')
    s += X('void lay_add2(LayoutBase* l, double pr, double pi, double zr, double zi, double qr, double qi, double yr, double yi)',
           'l->add(ComplexPair(complex_t(pr, pi), complex_t(qr, qi)), ComplexPair(complex_t(zr, zi), complex_t(yr, yi)));')
    # cascade over a storage of any size
    s += X('unsigned long cas_size()', 'return sizeof(Cascade);')
    s += X('void cas_new(void* m, int n, Biquad* p)', 'Cascade* c = new (m) Cascade; c->setCascadeStorage(Cascade::Storage(n, p));')
    s += X('int cas_num(const Cascade* c)', 'return c->getNumStages();')
    s += X('const Biquad* cas_at(Cascade* c, int i)', 'return &(*c)[i];')
    s += X('void cas_response(const Cascade* b, double f, double* o)', 'complex_t c = b->response(f); o[0] = c.real(); o[1] = c.imag();')
    s += X('void cas_layout(Cascade* c, const LayoutBase* l)', 'c->setLayout(*l);')
    s += X('void cas_scale(Cascade* c, double k)', 'c->applyScale(k);')
    s += X('void cas_pz(const Cascade* c, std::vector<PoleZeroPair>* v)', 'new (v) std::vector<PoleZeroPair>(c->getPoleZeros());')
    # frequency transforms
    for t in ('LowPass', 'HighPass'):
        s += X('void tr_%s(double fc, LayoutBase* d, const LayoutBase* a)' % t, '%sTransform(fc, *d, *a);' % t)
    for t in ('BandPass', 'BandStop'):
        s += X('void tr_%s(double fc, double fw, LayoutBase* d, const LayoutBase* a)' % t, '%sTransform(fc, fw, *d, *a);' % t)
    # analogue prototypes over a storage of any size
    for ns, lp, ls in (('Butterworth', 0, 1), ('ChebyshevI', 1, 2), ('ChebyshevII', 1, 2)):
        for c, k in (('AnalogLowPass', lp), ('AnalogLowShelf', ls)):
            p = 'an_%s_%s' % (ns, c)
            q = '%s::%s' % (ns, c)
            s += X('unsigned long %s_size()' % p, 'return sizeof(%s);' % q)
            s += X('void %s_new(void* m, int n, PoleZeroPair* p)' % p, '%s* a = new (m) %s; a->setStorage(LayoutBase(n, p));' % (q, q))
            ps = ['n'] + ['p%d' % i for i in range(k)]
            s += X('void %s_design(%s* a, int n%s)' % (p, q, ''.join(', double p%d' % i for i in range(k))), 'a->design(%s);' % ', '.join(ps))
            s += X('const LayoutBase* %s_lay(const %s* a)' % (p, q), 'return a;')
    # RBJ
    for c, (ps, dflt) in RBJ.items():
        p = 'rbj_' + c
        q = 'RBJ::' + c
        s += lifecycle(p, q, True)
        d = ''.join(', double ' + x for x in ps)
        a = ''.join(', ' + x for x in ps)
        s += X('void %s_setupN(%s* b, double f%s)' % (p, q, d), 'b->setupN(f%s);' % a)
        s += X('void %s_setup(%s* b, double sr, double f%s)' % (p, q, d), 'b->setup(sr, f%s);' % a)
        if dflt:
            d = ''.join(', double ' + x for x in ps[:-1])
            a = ''.join(', ' + x for x in ps[:-1])
            s += X('void %s_setupN_d(%s* b, double f%s)' % (p, q, d), 'b->setupN(f%s);' % a)
            s += X('void %s_setup_d(%s* b, double sr, double f%s)' % (p, q, d), 'b->setup(sr, f%s);' % a)
        s += X('Biquad* %s_bq(%s* b)' % (p, q), 'return b;')
        s += queries(p, q)
        for k, T in SAMPLES.items():
            s += X('%s %s_filter_%s(%s* b, %s x)' % (T, p, k, q, T), 'return b->filter(x);')
        s += X('void %s_reset(%s* b)' % (p, q), 'b->reset();')
    for c, k in (('OnePole', 3), ('TwoPole', 5)):
        s += lifecycle('cu_' + c, 'Custom::' + c, True)
        s += X('void cu_%s_setup(Custom::%s* b, %s)' % (c, c, ', '.join('double p%d' % i for i in range(k))),
               'b->setup(%s);' % ', '.join('p%d' % i for i in range(k)))
        s += X('Biquad* cu_%s_bq(Custom::%s* b)' % (c, c), 'return b;')
        s += queries('cu_' + c, 'Custom::' + c)
    return s


OPEN = '''template<class B> struct Open : B {
  void init(int ac, PoleZeroPair* ap, int dc, PoleZeroPair* dp, int M, Biquad* st) {
    this->setCascadeStorage(Cascade::Storage(M, st));
    this->setPrototypeStorage(LayoutBase(ac, ap), LayoutBase(dc, dp)); }
};
'''


def g_open():
    """the design classes over storages of any size: the part of PoleFilter which is independent of the template size"""
    s = OPEN
    for key, (ns, c, fr, ex) in FAM.items():
        B = 'Open<%s::%sBase>' % (ns, c)
        p = 'op_' + key
        s += X('unsigned long %s_size()' % p, 'return sizeof(%s);' % B)
        s += X('void %s_new(void* m, int ac, PoleZeroPair* ap, int dc, PoleZeroPair* dp, int M, Biquad* st)' % p,
               '%s* b = new (m) %s; b->init(ac, ap, dc, dp, M, st);' % (B, B))
        ps = fr + ex
        s += X('void %s_setup(%s* b, int n%s)' % (p, B, ''.join(', double ' + x for x in ps)), 'b->setup(n%s);' % ''.join(', ' + x for x in ps))
        s += X('int %s_num(const %s* b)' % (p, B), 'return b->getNumStages();')
        s += X('const Biquad* %s_at(%s* b, int i)' % (p, B), 'return &(*b)[i];')
        s += X('void %s_response(const %s* b, double f, double* o)' % (p, B), 'complex_t c = b->response(f); o[0] = c.real(); o[1] = c.imag();')
        s += X('void %s_pz(const %s* b, std::vector<PoleZeroPair>* v)' % (p, B), 'new (v) std::vector<PoleZeroPair>(b->getPoleZeros());')
        s += X('void %s_scale(%s* b, double k)' % (p, B), 'b->applyScale(k);')
    return s


def g_cascade(Ns=(1, 2, 3, 4, 5, 6)):
    s = ''
    for N in Ns:
        for S in STATES:
            for c, p in (('CascadeStages<%d,%s>' % (N, S), 'cs'), ('Custom::SOSCascade<%d,%s>' % (N, S), 'sos')):
                p = '%s_%s_%d' % (p, SHORT[S], N)
                s += lifecycle(p, c, True)
                s += X('void %s_setup(%s* b, const double (*m)[6])' % (p, c), 'b->setup(*(const double (*)[%d][6])m);' % N)
                if 'sos' in p:
                    s += X('void %s_newsos(void* b, const double (*m)[6])' % p, 'new (b) %s(*(const double (*)[%d][6])m);' % (c, N))
                s += X('void %s_reset(%s* b)' % (p, c), 'b->reset();')
                s += X('Biquad* %s_stages(%s* b)' % (p, c), 'return b->getCascadeStorage().stageArray;')
                s += X('int %s_max(%s* b)' % (p, c), 'return b->getCascadeStorage().maxStages;')
                for k, T in SAMPLES.items():
                    s += X('%s %s_filter_%s(%s* b, %s x)' % (T, p, k, c, T), 'return b->filter(x);')
    return s


def user_cls(key, N, S):
    ns, c, fr, ex = FAM[key]
    return '%s::%s<%d,%s>' % (ns, c, N, S)


def g_user(insts):
    """insts: list of (family key, order, state)"""
    s = ''
    for key, N, S in insts:
        ns, c, fr, ex = FAM[key]
        q = user_cls(key, N, S)
        p = 'u_%s_%s_%d' % (key, SHORT[S], N)
        s += lifecycle(p, q, True)
        ps = fr + ex
        d = ''.join(', double ' + x for x in ps)
        a = ''.join(', ' + x for x in ps)
        s += X('void %s_setup(%s* b, double sr%s)' % (p, q, d), 'b->setup(sr%s);' % a)
        s += X('void %s_setup_o(%s* b, int n, double sr%s)' % (p, q, d), 'b->setup(n, sr%s);' % a)
        s += X('void %s_setupN(%s* b%s)' % (p, q, d), 'b->setupN(%s);' % a[2:])
        s += X('void %s_setupN_o(%s* b, int n%s)' % (p, q, d), 'b->setupN(n%s);' % a)
        s += X('void %s_base(%s* b, int n%s)' % (p, q, d), 'b->%s::%sBase::setup(n%s);' % (ns, c, a))
        s += X('int %s_num(const %s* b)' % (p, q), 'return b->getNumStages();')
        s += X('const Biquad* %s_at(%s* b, int i)' % (p, q), 'return &(*b)[i];')
        s += X('Biquad* %s_stages(%s* b)' % (p, q), 'return b->getCascadeStorage().stageArray;')
        s += X('int %s_max(%s* b)' % (p, q), 'return b->getCascadeStorage().maxStages;')
        s += X('void %s_response(const %s* b, double f, double* o)' % (p, q), 'complex_t c = b->response(f); o[0] = c.real(); o[1] = c.imag();')
        s += X('void %s_pz(const %s* b, std::vector<PoleZeroPair>* v)' % (p, q), 'new (v) std::vector<PoleZeroPair>(b->getPoleZeros());')
        s += X('void %s_scale(%s* b, double k)' % (p, q), 'b->applyScale(k);')
        s += X('void %s_reset(%s* b)' % (p, q), 'b->reset();')
        for k in ('d', 'f', 'i'):
            T = SAMPLES[k]
            s += X('%s %s_filter_%s(%s* b, %s x)' % (T, p, k, q, T), 'return b->filter(x);')
    return s


def write(work, groups):
    """groups: dict name -> text"""
    os.makedirs(work, exist_ok=True)
    out = []
    for n, t in groups.items():
        f = os.path.join(work, 'h_%s.cpp' % n)
        with open(f, 'w') as fh:
            fh.write(HEAD + t)
        out.append(f)
    return out
