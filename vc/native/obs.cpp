// Replays a property on the real code: structured and random inputs through the public interface,
// compared with independent references. Usage: obs <property> <seed> <rounds>. Exit 1 = failing input found.
#include "Iir.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <functional>
#include <limits>
#include <memory>
#include <new>
#include <random>
#include <string>
#include <type_traits>
#include <vector>
using namespace Iir;
typedef std::vector<double> V;
typedef long double L;
typedef std::complex<long double> CL;
static const double NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();
static const double PI = 3.14159265358979323846;
static std::mt19937_64 rng;
static long cases = 0;
static int failures = 0;
static long allocs = 0;
#if !defined(__SANITIZE_ADDRESS__)
void* operator new(size_t n) { allocs++; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { allocs++; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (p) allocs++; free(p); }
void operator delete[](void* p) noexcept { if (p) allocs++; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) allocs++; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) allocs++; free(p); }
#endif
static std::string fmt(const char* f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static std::string show(const V& v) { std::string s = "("; for (size_t i = 0; i < v.size(); i++) s += fmt("%s%.17g", i ? ", " : "", v[i]); return s + ")"; }
static void fail(const std::string& s) { printf("FAILING INPUT: %s\n", s.c_str()); if (++failures >= 5) { printf("%ld cases\n", cases); fflush(stdout); _Exit(1); } }
#define CHECK(c, ...) do { cases++; if (!(c)) fail(fmt(__VA_ARGS__)); } while (0)
static V pool; // numbers which the failed obligations mention
static double hint() { double x = pool[rng() % pool.size()]; switch (rng() % 8) { case 0: return -x; case 1: return x * 1.5; case 2: return x * 0.75; case 3: return x * (1 + 1e-9); case 4: return x * (1 - 1e-9); case 5: return x + 1e-3; case 6: return 1 / x; } return x; }
static double uni(double a, double b) { if (!pool.empty() && rng() % 3 == 0) { double x = hint(); if (x >= a && x <= b) return x; } return std::uniform_real_distribution<double>(a, b)(rng); }
static int pick(int n) { return std::uniform_int_distribution<int>(0, n - 1)(rng); }
static bool near(double a, double b, double tol, double abs = 0) {
  if (a == b) return true;
  return std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b)) + abs; }
static bool bits(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// ------------------------------------------------------------------ filters
struct Filt {
  virtual ~Filt() {}
  virtual void setN(const double* p) = 0;
  virtual void setNo(int n, const double* p) = 0;
  virtual void setHz(double sr, const double* p) = 0;
  virtual void setHzo(int n, double sr, const double* p) = 0;
  virtual complex_t response(double f) = 0;
  virtual int num() = 0;
  virtual int max() = 0;
  virtual const Biquad* stages() = 0;
  virtual std::vector<PoleZeroPair> pz() = 0;
  virtual const Biquad& at(int i) = 0;
  virtual double filter(double x) = 0;
  virtual float filter(float x) = 0;
  virtual int filter(int x) = 0;
  virtual short filter(short x) = 0;
  virtual void reset() = 0;
  virtual void scale(double k) = 0;
  virtual Filt* copy() = 0;
  virtual Filt* moved() = 0;
  virtual void assign(Filt* o) = 0;
  virtual size_t size() = 0;
  virtual void* mem() = 0;
};
template<class F, int NP> struct Impl : Filt {
  F* f;
  Impl() { f = new (malloc(sizeof(F))) F; }
  explicit Impl(int) : f(nullptr) {}
  Impl(const Impl& o) { f = new (malloc(sizeof(F))) F(*o.f); }
  ~Impl() { f->~F(); memset((void*)f, 0xEE, sizeof(F)); free(f); }
  void setN(const double* p) override {
    if constexpr (NP == 1) f->setupN(p[0]); else if constexpr (NP == 2) f->setupN(p[0], p[1]);
    else if constexpr (NP == 3) f->setupN(p[0], p[1], p[2]); else f->setupN(p[0], p[1], p[2], p[3]); }
  void setNo(int n, const double* p) override {
    if constexpr (NP == 1) f->setupN(n, p[0]); else if constexpr (NP == 2) f->setupN(n, p[0], p[1]);
    else if constexpr (NP == 3) f->setupN(n, p[0], p[1], p[2]); else f->setupN(n, p[0], p[1], p[2], p[3]); }
  void setHz(double s, const double* p) override {
    if constexpr (NP == 1) f->setup(s, p[0]); else if constexpr (NP == 2) f->setup(s, p[0], p[1]);
    else if constexpr (NP == 3) f->setup(s, p[0], p[1], p[2]); else f->setup(s, p[0], p[1], p[2], p[3]); }
  void setHzo(int n, double s, const double* p) override {
    if constexpr (NP == 1) f->setup(n, s, p[0]); else if constexpr (NP == 2) f->setup(n, s, p[0], p[1]);
    else if constexpr (NP == 3) f->setup(n, s, p[0], p[1], p[2]); else f->setup(n, s, p[0], p[1], p[2], p[3]); }
  complex_t response(double x) override { return f->response(x); }
  int num() override { return f->getNumStages(); }
  int max() override { return f->getCascadeStorage().maxStages; }
  const Biquad* stages() override { return f->getCascadeStorage().stageArray; }
  std::vector<PoleZeroPair> pz() override { return f->getPoleZeros(); }
  const Biquad& at(int i) override { return (*f)[i]; }
  double filter(double x) override { return f->filter(x); }
  float filter(float x) override { return f->filter(x); }
  int filter(int x) override { return f->filter(x); }
  short filter(short x) override { return f->filter(x); }
  void reset() override { f->reset(); }
  void scale(double k) override { f->applyScale(k); }
  Filt* copy() override { return new Impl(*this); }
  Filt* moved() override { Impl* m = new Impl(0); m->f = new (malloc(sizeof(F))) F(std::move(*f)); return m; }
  void assign(Filt* o) override { *f = *((Impl*)o)->f; }
  size_t size() override { return sizeof(F); }
  void* mem() override { return f; }
};
typedef std::unique_ptr<Filt> P;
#ifndef BIGN
#define BIGN 36
#endif
enum Fam { BW, C1, C2 };
enum Typ { LP, HP, BP, BS, LS, HS, BSH };
static const char* FN[] = {"Butterworth", "ChebyshevI", "ChebyshevII"};
static const char* TN[] = {"LowPass", "HighPass", "BandPass", "BandStop", "LowShelf", "HighShelf", "BandShelf"};
static const int NS[] = {1, 2, 3, 4, 5, 6, 7, 9, 12};
static bool band(int t) { return t == BP || t == BS || t == BSH; }
static bool shelf(int t) { return t >= LS; }
static int npar(int f, int t) { return (band(t) ? 2 : 1) + (shelf(t) ? 1 : 0) + (f == BW ? 0 : 1); }
template<int N, class S> Filt* mk2(int f, int t) {
#define ROW(ns, e) switch (t) { case LP: return new Impl<ns::LowPass<N, S>, 1 + e>; case HP: return new Impl<ns::HighPass<N, S>, 1 + e>; \
  case BP: return new Impl<ns::BandPass<N, S>, 2 + e>; case BS: return new Impl<ns::BandStop<N, S>, 2 + e>; \
  case LS: return new Impl<ns::LowShelf<N, S>, 2 + e>; case HS: return new Impl<ns::HighShelf<N, S>, 2 + e>; \
  default: return new Impl<ns::BandShelf<N, S>, 3 + e>; }
  if (f == BW) ROW(Butterworth, 0)
  if (f == C1) ROW(ChebyshevI, 1)
  ROW(ChebyshevII, 1)
}
static P mk(int f, int t, int N, int s = 1) {
  if (s == 0 && N <= 4) switch (N) { case 1: return P(mk2<1, DirectFormI>(f, t)); case 2: return P(mk2<2, DirectFormI>(f, t)); case 3: return P(mk2<3, DirectFormI>(f, t)); case 4: return P(mk2<4, DirectFormI>(f, t)); }
  if (s == 2 && N <= 4) switch (N) { case 1: return P(mk2<1, TransposedDirectFormII>(f, t)); case 2: return P(mk2<2, TransposedDirectFormII>(f, t)); case 3: return P(mk2<3, TransposedDirectFormII>(f, t)); case 4: return P(mk2<4, TransposedDirectFormII>(f, t)); }
  switch (N) {
    case 1: return P(mk2<1, DirectFormII>(f, t)); case 2: return P(mk2<2, DirectFormII>(f, t)); case 3: return P(mk2<3, DirectFormII>(f, t));
    case 4: return P(mk2<4, DirectFormII>(f, t)); case 5: return P(mk2<5, DirectFormII>(f, t)); case 6: return P(mk2<6, DirectFormII>(f, t));
    case 7: return P(mk2<7, DirectFormII>(f, t)); case 9: return P(mk2<9, DirectFormII>(f, t)); case BIGN: return P(mk2<BIGN, DirectFormII>(f, t)); default: return P(mk2<12, DirectFormII>(f, t)); }
}
static std::string nm(int f, int t, int N, const V& p) { return fmt("%s::%s order %d setupN%s", FN[f], TN[t], N, show(p).c_str()); }

// parameters inside the valid range
static V good(int f, int t, int round) {
  V p;
  static const double fcs[] = {0.1, 0.25, 0.05, 0.4, 0.2, 0.45, 0.02, 0.3333, 0.49, 0.01};
  if (band(t)) {
    static const double cw[][2] = {{0.25, 0.1}, {0.1, 0.05}, {0.3, 0.2}, {0.25, 0.25}, {0.4, 0.1}, {0.15, 0.02}, {0.25, 0.4}, {0.08, 0.1}, {0.2, 0.3}, {0.42, 0.15}};
    if (round < 10) { p.push_back(cw[round][0]); p.push_back(cw[round][1]); }
    else { double a = uni(0.01, 0.47), b = uni(a + 0.01, 0.49); p.push_back((a + b) / 2); p.push_back(b - a); }
  } else p.push_back(round < 10 ? fcs[round] : uni(0.01, 0.49));
  static const double gs[] = {6, -6, 10, -12, 20, -20, 3, -3, 0.5, 15};
  double g = round < 10 ? gs[round] : uni(-25, 25);
  if (std::fabs(g) < 0.2) g = 1;
  if (shelf(t)) p.push_back(g);
  if (f == C1 && !shelf(t)) { static const double r[] = {1, 0.5, 3, 0.1, 2, 5, 0.01, 6}; p.push_back(round < 8 ? r[round] : uni(0.05, 6)); }
  if (f == C2 && !shelf(t)) { static const double r[] = {40, 20, 60, 10, 30, 48, 3.5, 80}; p.push_back(round < 8 ? r[round] : uni(2, 80)); }
  if (f != BW && shelf(t)) p.push_back(std::fabs(g) * (round < 4 ? 0.1 + 0.1 * round : uni(0.02, 0.6)));
  return p;
}
typedef std::function<void(int, int, int, const V&, int)> Each;
static void each(int rounds, Each fn, std::function<bool(int, int)> want = [](int, int) { return true; }) {
  for (int f = 0; f < 3; f++) for (int t = 0; t < 7; t++) if (want(f, t)) for (int N : NS) for (int r = 0; r < rounds; r++) fn(f, t, N, good(f, t, r), r);
}
static CL evalsec(const Biquad& b, L f) {
  CL z1 = std::polar((L)1, -2 * (L)M_PIl * f);
  return ((L)b.getB0() + (L)b.getB1() * z1 + (L)b.getB2() * z1 * z1) / ((L)b.getA0() + (L)b.getA1() * z1 + (L)b.getA2() * z1 * z1);
}
static CL evalall(Filt& F, L f) { CL r = 1; for (int i = 0; i < F.max(); i++) r *= evalsec(F.stages()[i], f); return r; }
static V coefs(const Biquad& b) { return V{b.getA0(), b.getA1(), b.getA2(), b.getB0(), b.getB1(), b.getB2()}; }
static V coefs(Filt& F) { V v; for (int i = 0; i < F.max(); i++) for (double x : coefs(F.stages()[i])) v.push_back(x); return v; }
static bool same(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!bits(a[i], b[i])) return false; return true; }
static bool close(const V& a, const V& b, double tol) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!near(a[i], b[i], tol, 1e-12)) return false; return true; }
static V report(Filt& F) {
  V v = coefs(F); v.push_back(F.num());
  for (auto& p : F.pz()) for (complex_t c : {p.poles.first, p.poles.second, p.zeros.first, p.zeros.second}) { v.push_back(c.real()); v.push_back(c.imag()); }
  for (double f : {0.0, 0.1, 0.23, 0.5}) { complex_t c = F.response(f); v.push_back(c.real()); v.push_back(c.imag()); }
  return v; }
template<class Fn> static bool throws(Fn fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }
static Biquad mkbq(const V& c) { Biquad b; b.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]); return b; }
// coefficients of a section (a0 a1 a2 b0 b1 b2), stable
static V stable(int k) {
  static const double s[][6] = {{1, 0, 0, 1, 0, 0}, {1, -0.5, 0.25, 0.3, 0.2, 0.1}, {2, -0.4, 0.6, 1, -2, 0.5}, {1, 0.9, 0, 1, 1, 0}, {-1, 0.3, 0.2, 0.5, 0, 0}, {0.5, 0.1, 0.2, 0, 1, 0}, {1, 0, 0, 0, 0, 1}, {1, 0.2, 0.3, 0, 0, 2}};
  if (k < 8) return V(s[k], s[k] + 6);
  double a0 = uni(0.2, 3) * (pick(2) ? 1 : -1), a2 = uni(-0.9, 0.9), a1 = uni(-1, 1) * (1 + a2) * 0.95;
  return V{a0, a1 * a0, a2 * a0, uni(-2, 2), uni(-2, 2), uni(-2, 2)};
}
static double ref2(const V& c, double x, double h[4]) { // x1 x2 y1 y2
  double y = (c[3] * x + c[4] * h[0] + c[5] * h[1] - c[1] * h[2] - c[2] * h[3]) / c[0];
  h[1] = h[0]; h[0] = x; h[3] = h[2]; h[2] = y; return y; }
static double sigamp = 1;
static V signal(int n, int kind) {
  V x(n);
  double amp = 1;
  if (!pool.empty() && rng() % 2) { amp = std::fabs(hint()); if (!(amp > 1e-250 && amp < 1e250)) amp = 1; }
  else if (kind >= 4) { static const double as[] = {1e9, 1e-9, 1e30, 1e-30, 1e5, 1e-5, 1e-160, 1e160}; amp = as[rng() % 8]; kind -= 4; }
  sigamp = amp;
  for (int i = 0; i < n; i++) x[i] = amp * (kind == 0 ? i == 0 : kind == 1 ? 1 : kind == 2 ? (i % 7 == 3 ? -2.5 : 0.25 * i - 1) : uni(-3, 3));
  return x; }

// ------------------------------------------------------------------ C01
template<class S> static void c01(const char* n, int rounds) {
  for (int k = 0; k < 10 * rounds; k++) {
    V c = stable(k); Biquad b = mkbq(c); S s, s2; double h[4] = {};
    V x = signal(60, k % 8); double amp = sigamp;
    for (int i = 0; i < 60; i++) {
      double y = s.filter(x[i], b), y2 = b.filter(x[i], s2), r = ref2(c, x[i], h);
      CHECK(near(y, r, 1e-7, 1e-7 * amp) && near(y2, r, 1e-7, 1e-7 * amp), "%s coefficients a0 a1 a2 b0 b1 b2 = %s, sample %d: output %.17g, difference equation %.17g", n, show(c).c_str(), i, y, r);
    } } }
// ------------------------------------------------------------------ C02-C05
template<int N, class S> static void cascade(const char* n, int rounds, int what) {
  for (int k = 0; k < 4 * rounds; k++) {
    double m[N][6]; std::vector<V> c;
    for (int i = 0; i < N; i++) { c.push_back(N > 8 ? V{1, uni(-0.05, 0.05), uni(-0.05, 0.05), uni(0.95, 1.05), uni(-0.05, 0.05), uni(-0.05, 0.05)} : stable(k < 2 ? (i + k * 3) % 8 : 8)); for (int j = 0; j < 3; j++) { m[i][j] = c[i][3 + j]; m[i][3 + j] = c[i][j]; } }
    Custom::SOSCascade<N, S> q(m), fresh(m), q3(m);
    V x = signal(50, what == 4 ? k % 4 : k % 8); double amp = sigamp; V y2 = signal(50, 3); amp = std::max(amp, sigamp);
    std::vector<std::vector<double>> h(N, V(4));
    V before; for (int i = 0; i < N; i++) for (double v : coefs(q.getCascadeStorage().stageArray[i])) before.push_back(v);
    if (what == 2) for (int i = 0; i < 50; i++) {
      double r = x[i]; for (int j = 0; j < N; j++) r = ref2(c[j], r, h[j].data());
      double y = q.filter(x[i]);
      CHECK(near(y, r, 1e-6, 1e-6 * amp), "%s cascade of %d sections, seed case %d, sample %d: %.17g, chain of sections %.17g", n, N, k, i, y, r); }
    V after; for (int i = 0; i < N; i++) for (double v : coefs(q.getCascadeStorage().stageArray[i])) after.push_back(v);
    if (what == 2) CHECK(same(before, after), "%s filtering changed coefficients", n);
    if (what == 3) {
      int pre = 1 + k * 3 % 17; for (int i = 0; i < pre; i++) q.filter(y2[i % 50]);
      q.reset();
      V a2; for (int i = 0; i < N; i++) for (double v : coefs(q.getCascadeStorage().stageArray[i])) a2.push_back(v);
      CHECK(same(before, a2), "%s reset() changed coefficients (%d sections)", n, N);
      for (int i = 0; i < 50; i++) { double a = q.filter(x[i]), b = fresh.filter(x[i]);
        CHECK(bits(a, b), "%s %d sections: after %d samples and reset(), sample %d gives %.17g, fresh filter %.17g", n, N, pre, i, a, b); } }
    if (what == 4) {
      Custom::SOSCascade<N, S> qf(m), qi(m), qs(m), ql(m), d1(m), d2(m), d3(m), d4(m);
      if (amp > 5) for (double& v : x) v /= amp;
      for (int i = 0; i < 50; i++) {
        float xf = (float)x[i] * 3.3f; int xi = (int)(x[i] * 1000); short xs = (short)(x[i] * 100); long long xl = (long long)(x[i] * 1e6) * 1000003;
        float a = qf.filter(xf), b = (float)d1.filter((double)xf);
        CHECK(bits(a, b), "%s %d sections, float sample %d: %.9g, double path %.9g", n, N, i, a, b);
        double bb = d2.filter((double)xi); if (std::fabs(bb) < 1e9) { int e = qi.filter(xi); CHECK(e == (int)bb, "%s %d sections, int sample %d: %d, double path %.17g", n, N, i, e, bb); } else break;
        double b3 = d3.filter((double)xs); if (std::fabs(b3) < 3e4) { short e = qs.filter(xs); CHECK(e == (short)b3, "%s %d sections, short sample %d: %d, double path %.17g", n, N, i, e, b3); } else break;
        double b4 = d4.filter((double)xl); if (std::fabs(b4) < 1e18) { long long e = ql.filter(xl); CHECK(e == (long long)b4, "%s %d sections, long long sample %d: %lld, double path %.17g", n, N, i, e, b4); } else break;
      } }
    if (what == 5) {
      Custom::SOSCascade<N, S> qx(m), qy(m), qz(m), noise(m), d0(m);
      double al = uni(-2, 2), be = uni(-2, 2); int sh = 3 + k % 5; V dl(60);
      for (int i = 0; i < 50; i++) {
        double a = qx.filter(x[i]); noise.filter(uni(-9, 9)); double b = qy.filter(y2[i]), z = qz.filter(al * x[i] + be * y2[i]);
        CHECK(near(z, al * a + be * b, 1e-6, 1e-6 * amp), "%s %d sections: superposition at sample %d: %.17g, %.17g", n, N, i, z, al * a + be * b);
        double t = d0.filter(i < sh ? 0.0 : x[i - sh]); dl[i] = a;
        double w = i < sh ? 0 : dl[i - sh];
        CHECK(near(t, w, 1e-9, 1e-9 * amp), "%s %d sections: input delayed by %d, sample %d: %.17g, %.17g", n, N, sh, i, t, w); }
      Custom::SOSCascade<N, S>* u = new Custom::SOSCascade<N, S>(m); Custom::SOSCascade<N, S> v(m);
      for (int i = 0; i < 30; i++) { double a = u->filter(x[i]), b = v.filter(x[i]); CHECK(bits(a, b), "%s two filters given the same input differ at sample %d", n, i); }
      delete u; }
  } }
template<class S> static void cascades(const char* n, int rounds, int what) {
  cascade<1, S>(n, rounds, what); cascade<2, S>(n, rounds, what); cascade<3, S>(n, rounds, what); cascade<5, S>(n, rounds, what); cascade<8, S>(n, rounds, what);
#ifndef EXTRA
#define EXTRA X(16) X(33)
#endif
#define X(N) cascade<N, S>(n, 1, what);
  EXTRA
#undef X
}
static void all_cascades(int rounds, int what) { cascades<DirectFormI>("DirectFormI", rounds, what); cascades<DirectFormII>("DirectFormII", rounds, what); cascades<TransposedDirectFormII>("TransposedDirectFormII", rounds, what); }
static void designed(int rounds, int what) {
  for (int s = 0; s < 3; s++) for (int f = 0; f < 3; f++) for (int t = 0; t < 7; t++) for (int N : {1, 2, 3, 4}) for (int r = 0; r < (rounds > 10 ? 3 : 1); r++) {
    V p = good(f, t, r), x = signal(40, what == 4 ? 3 : 3 + 4 * pick(2)); double amp = sigamp; V y = signal(40, 3); amp = std::max(amp, sigamp);
    P a = mk(f, t, N, s), b = mk(f, t, N, s), c = mk(f, t, N, s); std::string n = nm(f, t, N, p) + fmt(" structure %d", s);
    try { a->setN(p.data()); b->setN(p.data()); c->setN(p.data()); } catch (const std::exception& e) { CHECK(false, "%s throws %s", n.c_str(), e.what()); continue; }
    if (what == 2) {
      std::vector<V> h(a->max(), V(4));
      for (int i = 0; i < 40; i++) { double ref = x[i]; for (int j = 0; j < a->max(); j++) ref = ref2(coefs(a->stages()[j]), ref, h[j].data());
        double o = a->filter(x[i]); CHECK(near(o, ref, 1e-5, 1e-5 * amp), "%s sample %d: %.17g, chain of sections %.17g", n.c_str(), i, o, ref); } }
    if (what == 3) { for (int i = 0; i < 7 + 3 * N; i++) a->filter(y[i]); a->reset();
      CHECK(same(coefs(*a), coefs(*b)), "%s: reset() changed coefficients", n.c_str());
      for (int i = 0; i < 40; i++) { double u = a->filter(x[i]), w = b->filter(x[i]); CHECK(bits(u, w), "%s: after reset() sample %d is %.17g, fresh filter %.17g", n.c_str(), i, u, w); } }
    if (what == 4) for (int i = 0; i < 40; i++) { float xf = (float)x[i] * 1.7f; float u = a->filter(xf); float w = (float)b->filter((double)xf); CHECK(bits(u, w), "%s float sample %d: %.9g, double path %.9g", n.c_str(), i, u, w); }
    if (what == 5) for (int i = 0; i < 40; i++) { double u = a->filter(x[i]), w = b->filter(y[i]), z = c->filter(2 * x[i] - 3 * y[i]); CHECK(near(z, 2 * u - 3 * w, 1e-5, 1e-5 * amp), "%s: superposition at sample %d: %.17g %.17g", n.c_str(), i, z, 2 * u - 3 * w); }
  } }
template<class R> static void rbjfilter(const char* n, int rounds, int what, std::function<void(R&, double)> setup) {
  for (int k = 0; k < 3 * rounds; k++) { R a, b, c; double f = k < 3 ? 0.1 + 0.1 * k : uni(0.02, 0.45); setup(a, f); setup(b, f); setup(c, f);
    V x = signal(50, what == 4 ? 3 : 3 + 4 * (k % 2)); double amp = sigamp; V y = signal(50, 3); amp = std::max(amp, sigamp); double h[4] = {}; V co = coefs(a);
    if (what == 3) { for (int i = 0; i < 11; i++) a.filter(y[i]); a.reset(); }
    if (what == 4 && amp > 1e5) for (double& v : x) v /= amp;
    for (int i = 0; i < 50; i++) {
      if (what == 1 || what == 2) { double r = ref2(co, x[i], h), u = a.filter(x[i]); CHECK(near(u, r, 1e-6, 1e-6 * amp), "RBJ::%s f=%.17g sample %d: %.17g, difference equation %.17g", n, f, i, u, r); }
      if (what == 3) { double u = a.filter(x[i]), w = b.filter(x[i]); CHECK(bits(u, w), "RBJ::%s f=%.17g after reset() sample %d: %.17g, fresh filter %.17g", n, f, i, u, w); }
      if (what == 4) { float xf = x[i]; float u = a.filter(xf), w = (float)b.filter((double)xf); CHECK(bits(u, w), "RBJ::%s float sample %d: %.9g, double path %.9g", n, i, u, w); int xi = 1000 * x[i], v = c.filter(xi); }
      if (what == 5) { double u = a.filter(x[i]), w = b.filter(y[i]), z = c.filter(2 * x[i] - y[i]); CHECK(near(z, 2 * u - w, 1e-6, 1e-6 * amp), "RBJ::%s f=%.17g superposition at sample %d: %.17g %.17g", n, f, i, z, 2 * u - w); } }
    if (what == 4) { R g, e2; setup(g, f); setup(e2, f); double h4[4] = {}, top = 0; for (int i = 0; i < 60; i++) { double v = pick(2) ? x[i % 50] : uni(-3, 3), u = g.filter(v), r = ref2(co, v, h4); top = std::max({top, std::fabs(r), std::fabs(v)}); CHECK(std::fabs(u - r) <= 1e-10 * top, "RBJ::%s f=%.17g double sample %d (%.17g): %.17g, difference equation %.17g", n, f, i, v, u, r);
        long long xl = (long long)(uni(-1, 1) * 1e15) | 1; double w = e2.filter((double)xl); R* pe = nullptr; (void)pe; if (i == 0) { R q1, q2; setup(q1, f); setup(q2, f); double d0 = q2.filter((double)xl); if (std::fabs(d0) < 1e18) { long long q = q1.filter(xl); double rr[4] = {}; double want = ref2(co, (double)xl, rr); CHECK(q == (long long)d0 && std::fabs(q - want) <= 1e-12 * (std::fabs(want) + std::fabs((double)xl)) + 1, "RBJ::%s f=%.17g long long sample %lld: %lld, difference equation %.17g", n, f, xl, q, want); } } (void)w; } }
    if (what == 4) { R d, e; setup(d, f); setup(e, f); for (int i = 0; i < 50; i++) { int xi = 1000 * x[i]; int u = d.filter(xi); double w = e.filter((double)xi); CHECK(u == (int)w, "RBJ::%s int sample %d: %d, double path %.17g", n, i, u, w); } }
    CHECK(same(co, coefs(a)), "RBJ::%s filtering or reset changed coefficients", n); } }
static void rbjs(int rounds, int what) {
  rbjfilter<RBJ::LowPass>("LowPass", rounds, what, [](RBJ::LowPass& r, double f) { r.setupN(f); });
  rbjfilter<RBJ::HighPass>("HighPass", rounds, what, [](RBJ::HighPass& r, double f) { r.setupN(f, 2); });
  rbjfilter<RBJ::BandPass1>("BandPass1", rounds, what, [](RBJ::BandPass1& r, double f) { r.setupN(f, 1.5); });
  rbjfilter<RBJ::BandPass2>("BandPass2", rounds, what, [](RBJ::BandPass2& r, double f) { r.setupN(f, 0.5); });
  rbjfilter<RBJ::BandStop>("BandStop", rounds, what, [](RBJ::BandStop& r, double f) { r.setupN(f, 1); });
  rbjfilter<RBJ::IIRNotch>("IIRNotch", rounds, what, [](RBJ::IIRNotch& r, double f) { r.setupN(f); });
  rbjfilter<RBJ::LowShelf>("LowShelf", rounds, what, [](RBJ::LowShelf& r, double f) { r.setupN(f, 6); });
  rbjfilter<RBJ::HighShelf>("HighShelf", rounds, what, [](RBJ::HighShelf& r, double f) { r.setupN(f, -9); });
  rbjfilter<RBJ::BandShelf>("BandShelf", rounds, what, [](RBJ::BandShelf& r, double f) { r.setupN(f, 6, 1); });
  rbjfilter<RBJ::AllPass>("AllPass", rounds, what, [](RBJ::AllPass& r, double f) { r.setupN(f); }); }
static void C01(int n) { c01<DirectFormI>("DirectFormI", n); c01<DirectFormII>("DirectFormII", n); c01<TransposedDirectFormII>("TransposedDirectFormII", n); rbjs(n, 1); }
static void C02(int n) { all_cascades(n, 2); designed(n, 2); }
// reset while a lower order is in use
template <class S> static void reset_low(const char* name) {
  for (int lo = 1; lo <= 6; lo++) for (int hi = 1; hi <= 6; hi++) for (int mid = 1; mid <= 6; mid++) { Butterworth::LowPass<6, S> a, b; a.setupN(hi, 0.1); for (int i = 0; i < 9; i++) a.filter(1.0); a.setupN(lo, 0.2); for (int i = 0; i < mid; i++) a.filter(0.7); a.reset(); a.setupN(6, 0.1); b.setupN(6, 0.1);
    double d = 0; for (int i = 0; i < 12; i++) d = std::max(d, std::fabs(a.filter(0.5) - b.filter(0.5))); CHECK(d < 1e-12, "Butterworth::LowPass<6, %s>: setupN(%d, 0.1), 9 samples, setupN(%d, 0.2), %d samples, reset(), setupN(6, 0.1) differs from a new filter by %g", name, hi, lo, mid, d); }
}
static void C03(int n) { reset_low<DirectFormI>("DirectFormI"); reset_low<DirectFormII>("DirectFormII"); reset_low<TransposedDirectFormII>("TransposedDirectFormII"); all_cascades(n, 3); designed(n, 3); rbjs(n, 3); }
static void C04(int n) { all_cascades(n, 4); designed(n, 4); rbjs(n, 4); }
// the same samples, with a rest of `rest` samples before them for one of two equal filters
template <class F> static void late(const char* name, long rest) {
  F a, b; a.setupN(3, 0.11); b.setupN(3, 0.11);
  for (long i = 0; i < 50; i++) a.filter(0.0);
  double d = 0; long at = 0; for (long i = 0; i < rest; i++) { double x = i % 7 - 2.5, e = std::fabs(a.filter(x) - b.filter(x)); if (e > d) { d = e; at = i; } }
  CHECK(d < 1e-9, "%s<3> setupN(3, 0.11): output %ld is off by %g if 50 zeros come before the same samples", name, at, d);
}
static void long_runs() {
  const long m = (1L << 22) + 100;
  late<Butterworth::LowPass<3, DirectFormI>>("Butterworth::LowPass DirectFormI", m); late<Butterworth::LowPass<3, DirectFormII>>("Butterworth::LowPass DirectFormII", m); late<Butterworth::HighPass<3, TransposedDirectFormII>>("Butterworth::HighPass TransposedDirectFormII", m);
  RBJ::LowPass a, b; a.setupN(0.1, 0.7); b.setupN(0.1, 0.7); for (int i = 0; i < 50; i++) a.filter(0.0); double d = 0; for (long i = 0; i < m; i++) d = std::max(d, std::fabs(a.filter((double)(i % 5)) - b.filter((double)(i % 5)))); CHECK(d < 1e-9, "RBJ::LowPass: %ld samples are off by %g if 50 zeros come before", m, d);
}
static void C05(int n) { long_runs(); all_cascades(n, 5); designed(n, 5); rbjs(n, 5); }
// ------------------------------------------------------------------ C06, C09
static void C06(int n) {
  for (int k = 0; k < 40 * n; k++) {
    V c = stable(k); if (k >= 8) for (double& x : c) x = uni(-4, 4); if (c[0] == 0) c[0] = 1;
    Biquad b; if (k % 2) b.setCoefficients(3, 2, 1, 5, 4, 6); b.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]);
    CHECK(close(coefs(b), c, 1e-12), "setCoefficients%s read back as %s", show(c).c_str(), show(coefs(b)).c_str());
    for (double f : {0.0, 0.5, 0.11, 0.37}) { CL z1 = std::polar((L)1, -2 * (L)M_PIl * f), N = (L)c[3] + (L)c[4] * z1 + (L)c[5] * z1 * z1, D = (L)c[0] + (L)c[1] * z1 + (L)c[2] * z1 * z1; if (std::abs(D) < 1e-2) continue;
      CL r = N / D; complex_t g = b.response(f); CHECK(std::abs(CL(g) - r) <= 1e-9 * (1 + std::abs(r)), "setCoefficients%s response at %g", show(c).c_str(), f); }
    DirectFormI s; double h[4] = {}; if (std::fabs(c[0]) > 1e-2) for (int i = 0; i < 5; i++) { double x = i == 0, y = s.filter(x, b), r = ref2(c, x, h); CHECK(near(y, r, 1e-9, 1e-9), "setCoefficients%s impulse response %d: %.17g, %.17g", show(c).c_str(), i, y, r); }
    double m[3][6], m2[3][6]; std::vector<V> w;
    for (int i = 0; i < 3; i++) { V d = stable(8 + k); w.push_back(d); for (int j = 0; j < 3; j++) { m[i][j] = d[3 + j]; m[i][3 + j] = d[j]; } for (int j = 0; j < 6; j++) m2[i][j] = uni(1, 2); }
    Custom::SOSCascade<3> q(m), q2(m2), q3; q2.setup(m); q3.setup(m);
    Custom::SOSCascade<3, DirectFormI> q4(m); Custom::SOSCascade<3, TransposedDirectFormII> q5(m); q5.setup(m2); q5.setup(m);
    for (int mask = 1; mask < 64; mask += k < 5 ? 1 : 5) { double m6[3][6]; memcpy(m6, m, sizeof m); int row = pick(3); for (int j = 0; j < 6; j++) if (mask >> j & 1) m6[row][j] += 0.125; Custom::SOSCascade<3> q6(m); q6.setup(m6);
      for (int i = 0; i < 3; i++) CHECK(close(coefs(q6.getCascadeStorage().stageArray[i]), V{m6[i][3], m6[i][4], m6[i][5], m6[i][0], m6[i][1], m6[i][2]}, 1e-12), "SOSCascade setup() with row %d = %s after row %s", row, show(V(m6[row], m6[row] + 6)).c_str(), show(V(m[row], m[row] + 6)).c_str()); }
    for (int i = 0; i < 3; i++) {
      CHECK(close(coefs(q.getCascadeStorage().stageArray[i]), w[i], 1e-12), "SOSCascade constructor, row %d", i); CHECK(close(coefs(q2.getCascadeStorage().stageArray[i]), w[i], 1e-12), "SOSCascade setup() after another matrix, row %d", i);
      CHECK(close(coefs(q3.getCascadeStorage().stageArray[i]), w[i], 1e-12), "SOSCascade setup(), row %d", i); CHECK(close(coefs(q4.getCascadeStorage().stageArray[i]), w[i], 1e-12), "SOSCascade<DirectFormI>, row %d", i); CHECK(close(coefs(q5.getCascadeStorage().stageArray[i]), w[i], 1e-12), "SOSCascade<TransposedDirectFormII>, row %d", i); }
  } }
static void C09(int n) {
  for (int k = 0; k < 40 * n; k++) { V c = stable(k); Biquad b = mkbq(c); for (double f : {0.0, 0.5, 0.25, 0.123, 0.4999, uni(0, 0.5)}) { CL r = evalsec(b, f); complex_t g = b.response(f);
    CHECK(std::abs(CL(g) - r) <= 1e-7 * (1 + std::abs(r)), "section %s response(%.17g) = (%.17g, %.17g), transfer function (%.17g, %.17g)", show(c).c_str(), f, g.real(), g.imag(), (double)r.real(), (double)r.imag()); } }
  each(n > 10 ? 10 : 2, [](int f, int t, int N, const V& p, int) { P F = mk(f, t, N); F->setN(p.data());
    for (int k = 0; k < 3; k++) {
      for (double x : {0.0, 0.5, 0.25, 0.07, uni(0, 0.5)}) { CL r = 1; for (int i = 0; i < F->num(); i++) r *= evalsec(F->at(i), x); complex_t g = F->response(x);
        L cond = 1; for (int i = 0; i < F->num(); i++) { const Biquad& b = F->at(i); CL z1 = std::polar((L)1, -2 * (L)M_PIl * x); cond = std::max(cond, std::abs((L)1) / std::abs((L)b.getA0() + (L)b.getA1() * z1 + (L)b.getA2() * z1 * z1)); }
        if (cond > 1e5) continue;
        CHECK(std::abs(CL(g) - r) <= 1e-6 * (1 + std::abs(r)), "%s (setup again %d) response(%.17g) = (%.17g, %.17g), product over the sections (%.17g, %.17g)", nm(f, t, N, p).c_str(), k, x, g.real(), g.imag(), (double)r.real(), (double)r.imag()); }
      F->setNo(k == 0 ? 1 : N, p.data()); }
    for (double x : {-0.01, 0.51, -1e-9, 0.5000001, 1.0, -0.3, 7.0}) CHECK(throws([&] { F->response(x); }), "%s response(%.17g) does not throw", nm(f, t, N, p).c_str(), x);
    for (double x : {0.0, 0.5, 0.3}) CHECK(!throws([&] { F->response(x); }), "%s response(%.17g) throws", nm(f, t, N, p).c_str(), x); });
}
// ------------------------------------------------------------------ C07, C08
static void C07(int n) {
  auto poly = [](const Biquad& b, double scale, complex_t p1, complex_t p2, complex_t z1, complex_t z2, const std::string& s) {
    V c = coefs(b); double a0 = c[0]; for (double& x : c) x /= a0;
    V r{1, -(p1 + p2).real(), (p1 * p2).real(), scale, -scale * (z1 + z2).real(), scale * (z1 * z2).real()};
    CHECK(close(c, r, 1e-9), "%s: coefficients/a0 %s, expected %s", s.c_str(), show(c).c_str(), show(r).c_str()); };
  for (int k = 0; k < 60 * n; k++) {
    double p = uni(-0.99, 0.99), q = uni(-0.99, 0.99), z = uni(-2, 2), y = uni(-2, 2), s = uni(-3, 3); complex_t P(p, uni(0.01, 0.9)), Z(z, uni(0.01, 2));
    if (k == 0) z = y = 0; if (k == 1) p = q = 0; if (k == 2) z = -1, y = -1; if (k == 3) p = 0, z = 0, q = 0.5;
    std::string n = fmt("poles %.17g %.17g zeros %.17g %.17g scale %.17g", p, q, z, y, s);
    Biquad b; b.setOnePole(p, z); poly(b, 1, p, 0, z, 0, "setOnePole " + n);
    b.setTwoPole(p, z, q, y); poly(b, 1, p, q, z, y, "setTwoPole real " + n);
    b.setTwoPole(P, Z, std::conj(P), std::conj(Z)); poly(b, 1, P, std::conj(P), Z, std::conj(Z), "setTwoPole complex " + n);
    b.setTwoPole(P, z, std::conj(P), y); poly(b, 1, P, std::conj(P), z, y, "setTwoPole complex poles real zeros " + n);
    b.setTwoPole(p, Z, q, std::conj(Z)); poly(b, 1, p, q, Z, std::conj(Z), "setTwoPole real poles complex zeros " + n);
    b.setPoleZeroPair(PoleZeroPair(p, z)); poly(b, 1, p, 0, z, 0, "setPoleZeroPair of one pole " + n); b.setPoleZeroPair(PoleZeroPair(p, z, q, y)); poly(b, 1, p, q, z, y, "setPoleZeroPair " + n);
    b.setPoleZeroPair(PoleZeroPair(p, z, 0, y)); poly(b, 1, p, 0, z, y, "setPoleZeroPair with the second pole at 0 " + n); b.setPoleZeroPair(PoleZeroPair(p, z, q, 0)); poly(b, 1, p, q, z, 0, "setPoleZeroPair with the second zero at 0 " + n); b.setPoleZeroPair(PoleZeroPair(p, Z, 0, std::conj(Z))); poly(b, 1, p, 0, Z, std::conj(Z), "setPoleZeroPair with complex zeros and one pole " + n); b.setPoleZeroPair(PoleZeroPair(P, z, std::conj(P), 0)); poly(b, 1, P, std::conj(P), z, 0, "setPoleZeroPair with complex poles and one zero " + n);
    Custom::OnePole o; o.setup(s, p, z); poly(o, s, p, 0, z, 0, "Custom::OnePole " + n);
    double rho = uni(0, 0.99), th = uni(-PI, PI), zr = uni(0, 2), zt = uni(-PI, PI); Custom::TwoPole t; t.setup(s, rho, th, zr, zt);
    poly(t, s, std::polar(rho, th), std::polar(rho, -th), std::polar(zr, zt), std::polar(zr, -zt), fmt("Custom::TwoPole(%.17g, %.17g, %.17g, %.17g, %.17g)", s, rho, th, zr, zt));
    double e = k % 3 ? 0.3 : 1e-3;
    CHECK(throws([&] { b.setOnePole(complex_t(p, e), z); }) && throws([&] { b.setOnePole(p, complex_t(z, -e)); }), "setOnePole accepts a complex pole or zero, %s", n.c_str());
    CHECK(throws([&] { b.setTwoPole(P, z, P, y); }) && throws([&] { b.setTwoPole(P, z, std::conj(P) + e, y); }) && throws([&] { b.setTwoPole(P, z, std::conj(P) + complex_t(0, e), y); }), "setTwoPole accepts poles which are not conjugates, %s", n.c_str());
    for (double t : {1e-1, 1e-5, 1e-7, 1e-9, 1e-13, 1e-200, std::fabs(uni(-0.5, 0.5))}) { complex_t U(p, t), W(z, t); std::string m = n + fmt(" imaginary part %g", t); if (t == 0 || p == q || z == y) continue;
      b.setTwoPole(U, W, std::conj(U), std::conj(W)); poly(b, 1, U, std::conj(U), W, std::conj(W), "setTwoPole " + m);
      complex_t bad[] = {U, complex_t(p), complex_t(q), std::conj(complex_t(q, t)), complex_t(p, -2 * t), complex_t(q, 0.5 * t)}, badz[] = {W, complex_t(z), complex_t(y), std::conj(complex_t(y, t)), complex_t(z, -2 * t), complex_t(y, 0.5 * t)};
      for (int i = 0; i < 6; i++) { CHECK(throws([&] { b.setTwoPole(U, z, bad[i], y); }) && throws([&] { b.setTwoPole(bad[i], z, U, y); }), "setTwoPole accepts the poles (%.17g,%g) (%.17g,%g)", p, t, bad[i].real(), bad[i].imag()); CHECK(throws([&] { b.setTwoPole(p, W, q, badz[i]); }) && throws([&] { b.setTwoPole(p, badz[i], q, W); }), "setTwoPole accepts the zeros (%.17g,%g) (%.17g,%g)", z, t, badz[i].real(), badz[i].imag()); }
      CHECK(throws([&] { b.setOnePole(complex_t(p, t), z); }) && throws([&] { b.setOnePole(p, complex_t(z, -t)); }), "setOnePole accepts a complex pole or zero, %s", m.c_str()); }
    CHECK(throws([&] { b.setTwoPole(p, Z, q, Z); }) && throws([&] { b.setTwoPole(p, Z, q, std::conj(Z) + e); }) && throws([&] { b.setTwoPole(p, z, q, complex_t(y, e)); }) && throws([&] { b.setTwoPole(complex_t(p, e), z, q, y); }), "setTwoPole accepts zeros or poles which are not conjugates, %s", n.c_str());
  } }
static void rootsof(const Biquad& b, const PoleZeroPair& z, double tol, const std::string& n) {
  V c = coefs(b); double a0 = c[0]; complex_t p1 = z.poles.first, p2 = z.poles.second, z1 = z.zeros.first, z2 = z.zeros.second;
  CHECK(std::abs(p1 + p2 + c[1] / a0) <= tol * (1 + std::fabs(c[1] / a0)) && std::abs(p1 * p2 - c[2] / a0) <= tol * (1 + std::fabs(c[2] / a0)), "%s: reported poles (%.17g,%.17g) (%.17g,%.17g) of a = %s", n.c_str(), p1.real(), p1.imag(), p2.real(), p2.imag(), show(c).c_str());
  CHECK(std::abs((z1 + z2) * c[3] + c[4]) <= tol * (std::fabs(c[3]) + std::fabs(c[4])) && std::abs(z1 * z2 * c[3] - c[5]) <= tol * (std::fabs(c[3]) + std::fabs(c[5])), "%s: reported zeros (%.17g,%.17g) (%.17g,%.17g) of b = %s", n.c_str(), z1.real(), z1.imag(), z2.real(), z2.imag(), show(c).c_str()); }
static void C08(int n) {
  for (int k = 0; k < 60 * n; k++) { V c = stable(k); if (k % 3 == 1) c[2] = c[5] = 0; if (k % 7 == 2) c[5] = 0; if (k % 11 == 3) c[2] = 0; if (std::fabs(c[3]) < 1e-2) c[3] = 0.7; for (double& x : c) if (std::fabs(x) < 1e-3) x = 0; Biquad b = mkbq(c); std::string s = "section " + show(c);
    if (c[5] == 0 && c[2] != 0 && c[4] == 0 && 0) continue;
    auto v = b.getPoleZeros(); CHECK(v.size() == 1, "%s: %zu entries", s.c_str(), v.size()); if (v.size() == 1) rootsof(b, v[0], 1e-9, s);
    BiquadPoleState st(b); rootsof(b, st, 1e-9, s + " BiquadPoleState"); CHECK(near(st.gain, c[3] / c[0], 1e-12), "%s: gain %.17g", s.c_str(), st.gain);
    Biquad r; struct Open : Biquad { void form(const BiquadPoleState& x) { setPoleZeroForm(x); } }; r.setPoleZeroForm(st); V d = coefs(r); double d0 = d[0]; for (double& x : d) x /= d0; V e = c; double e0 = e[0]; for (double& x : e) x /= e0;
    bool okk = true; for (int i = 0; i < 6; i++) if (std::fabs(d[i] - e[i]) > 1e-7 * (1 + std::fabs(e[i]))) okk = false; CHECK(okk, "%s: rebuilt section %s", s.c_str(), show(d).c_str()); }
  each(n > 10 ? 10 : 3, [](int f, int t, int N, const V& p, int r) { P F = mk(f, t, N); int o = r % 3 == 2 ? (N + 1) / 2 : N;
    if (r % 3 == 1) { F->setN(good(f, t, r + 1).data()); F->setNo(1, good(f, t, r + 2).data()); }
    F->setNo(o, p.data()); std::string s = nm(f, t, o, p);
    auto v = F->pz(); CHECK((int)v.size() == F->num(), "%s: %zu pole/zero entries for %d sections", s.c_str(), v.size(), F->num());
    for (int i = 0; i < (int)v.size() && i < F->num(); i++) rootsof(F->at(i), v[i], 1e-6, s + fmt(" section %d", i)); }, [](int, int) { return true; });
}
// ------------------------------------------------------------------ RBJ table
struct R { const char* n; int np; int kind; // kind of the last parameter 0 Q/bandwidth, 1 slope
  std::function<void(Biquad&, const V&)> N; std::function<void(Biquad&, double, const V&)> Hz; std::function<void(Biquad&, const V&)> Nd; std::function<void(Biquad&, double, const V&)> Hzd; double dflt; };
static std::vector<R> rbjtab() {
  std::vector<R> t;
#define T1(c, d) { R r; r.n = #c; r.np = 2; r.kind = 0; r.dflt = d; r.N = [](Biquad& b, const V& p) { RBJ::c f; f.setupN(p[0], p[1]); b = f; }; r.Hz = [](Biquad& b, double s, const V& p) { RBJ::c f; f.setup(s, p[0], p[1]); b = f; };
#define DF(c) r.Nd = [](Biquad& b, const V& p) { RBJ::c f; f.setupN(p[0]); b = f; }; r.Hzd = [](Biquad& b, double s, const V& p) { RBJ::c f; f.setup(s, p[0]); b = f; };
  T1(LowPass, M_SQRT1_2) DF(LowPass) t.push_back(r); }
  T1(HighPass, M_SQRT1_2) DF(HighPass) t.push_back(r); }
  T1(BandPass1, 0) t.push_back(r); }
  T1(BandPass2, 0) t.push_back(r); }
  T1(BandStop, 0) t.push_back(r); }
  T1(IIRNotch, 10) DF(IIRNotch) t.push_back(r); }
  T1(AllPass, M_SQRT1_2) DF(AllPass) t.push_back(r); }
#define T2(c, d, k) { R r; r.n = #c; r.np = 3; r.kind = k; r.dflt = d; r.N = [](Biquad& b, const V& p) { RBJ::c f; f.setupN(p[0], p[1], p[2]); b = f; }; r.Hz = [](Biquad& b, double s, const V& p) { RBJ::c f; f.setup(s, p[0], p[1], p[2]); b = f; };
#define DF2(c) r.Nd = [](Biquad& b, const V& p) { RBJ::c f; f.setupN(p[0], p[1]); b = f; }; r.Hzd = [](Biquad& b, double s, const V& p) { RBJ::c f; f.setup(s, p[0], p[1]); b = f; };
  T2(LowShelf, 1, 1) DF2(LowShelf) t.push_back(r); }
  T2(HighShelf, 1, 1) DF2(HighShelf) t.push_back(r); }
  T2(BandShelf, 0, 0) t.push_back(r); }
  return t; }
static V rbjgood(const R& r, int k) {
  static const double fs[] = {0.1, 0.25, 0.4, 0.05, 0.33, 0.45, 0.01, 0.2, 0.003, 0.499}, qs[] = {0.7071, 1, 2, 0.5, 10, 0.1, 5, 0.25, 50, 0.01};
  V p{k < 10 ? fs[k] : uni(0.002, 0.498)};
  if (r.np == 3) { static const double gs[] = {6, -6, 12, -12, 0, 20, -20, 1, 3, -3}; p.push_back(k < 10 ? gs[k] : uni(-24, 24)); }
  if (r.kind) p.push_back(k < 4 ? 1 - 0.2 * k : uni(0.1, 1));
  else if (r.np == 3) p.push_back((k < 10 ? 0.2 + 0.3 * k : uni(0.05, 3)) * std::min(1.0, std::sin(2 * PI * p[0]) / (2 * PI * p[0]))); // octaves; sinh(bw w0 / sin w0) has to stay moderate
  else p.push_back(k < 10 ? qs[k] : std::pow(10, uni(-2, 2)));
  return p; }
// ------------------------------------------------------------------ C10
static void C10(int n) {
  auto T = [](Filt& F, bool want, int f, int t, int N, int o, const V& p, double sr, const char* how) {
    bool a = throws([&] { if (sr > 0) { if (o == -1) F.setHz(sr, p.data()); else F.setHzo(o, sr, p.data()); } else if (o == -1) F.setN(p.data()); else F.setNo(o, p.data()); });
    CHECK(a == want, "%s::%s<%d> setup order %d sampling rate %g %s: %s (%s)", FN[f], TN[t], N, o, sr, show(p).c_str(), a ? "throws" : "does not throw", how); };
  for (int f = 0; f < 3; f++) for (int t = 0; t < 7; t++) for (int N : NS) for (int r = 0; r < (n > 10 ? 12 : 3); r++) {
    V p = good(f, t, r); auto bad = [&](double fc, double sr, int o, const char* how) { P F = mk(f, t, N); V q = p; q[0] = fc; if (sr > 0 && band(t)) q[1] *= sr; T(*F, true, f, t, N, o, q, sr, how); if (r == 1) { P G = mk(f, t, N); G->setN(p.data()); T(*G, true, f, t, N, o, q, sr, how); } };
    for (int o : {-1, N}) {
      for (double fc : {-0.1, -1e-12, 0.5, 0.5000001, 0.7, 1.0, 3.0, NaN, INF, -INF}) bad(fc, 0, o, "invalid frequency");
      double sr = 44100; for (double fc : {-10.0, 22050.0, 22051.0, 44100.0, 1e6, (double)NaN}) bad(fc, sr, o, "invalid frequency in Hz");
      if (band(t)) for (double w : {0.0, -0.1, -1e-9, NaN, -INF}) { P F = mk(f, t, N); V q = p; q[1] = w; T(*F, true, f, t, N, o, q, 0, "invalid width"); q[0] *= sr; q[1] *= sr; T(*F, true, f, t, N, o, q, sr, "invalid width in Hz"); }
      P F = mk(f, t, N); T(*F, false, f, t, N, o, p, 0, "valid"); V q = p; q[0] *= sr; if (band(t)) q[1] *= sr; T(*F, false, f, t, N, o, q, sr, "valid in Hz");
    }
    for (int o : {0, -2, -7, N + 1, N + 2, 2 * N + 1, 100, 2147483647, (int)-2147483648}) { P F = mk(f, t, N); if (o == -1) continue; T(*F, true, f, t, N, o, p, 0, "invalid order"); V q = p; q[0] *= 1000; if (band(t)) q[1] *= 1000; T(*F, true, f, t, N, o, q, 1000, "invalid order"); }
    { P F = mk(f, t, N); bool a = throws([&] { F->setNo(-1, p.data()); }); CHECK(a, "%s::%s<%d> order -1 accepted", FN[f], TN[t], N); }
    for (int o = 1; o <= N; o++) { P F = mk(f, t, N); T(*F, false, f, t, N, o, p, 0, "valid order"); }
    if (!band(t)) for (double fc : {1e-5, 0.4999, 0.001, 0.25}) { P F = mk(f, t, std::min(N, 4)); V q = p; q[0] = fc; T(*F, false, f, t, std::min(N, 4), -1, q, 0, "valid frequency"); }
    if (band(t) && N <= 3) for (int k = 0; k < 6; k++) { double a = uni(0.005, 0.47), b = uni(a + 0.01, 0.495); P F = mk(f, t, N); V q = p; q[0] = (a + b) / 2; q[1] = b - a; T(*F, false, f, t, N, -1, q, 0, "valid band"); }
  }
  for (auto& r : rbjtab()) for (int k = 0; k < (n > 10 ? 40 : 8); k++) { V p = rbjgood(r, k); Biquad b;
    CHECK(!throws([&] { r.N(b, p); }), "RBJ::%s setupN%s throws", r.n, show(p).c_str()); { V q = p; q[0] *= 8000; CHECK(!throws([&] { r.Hz(b, 8000, q); }), "RBJ::%s setup(8000, %s) throws", r.n, show(q).c_str()); }
    for (double fc : {-0.1, -1e-12, 0.5, 0.51, 1.0, 2.25, NaN, INF, -INF}) { V q = p; q[0] = fc; CHECK(throws([&] { r.N(b, q); }), "RBJ::%s setupN%s does not throw", r.n, show(q).c_str()); if (r.Nd) CHECK(throws([&] { r.Nd(b, q); }), "RBJ::%s setupN%s with default argument does not throw", r.n, show(q).c_str()); q[0] *= 8000; CHECK(throws([&] { r.Hz(b, 8000, q); }), "RBJ::%s setup(8000, %s) does not throw", r.n, show(q).c_str()); }
    if (!r.kind) for (double w : {0.0, -1.0, -1e-9, NaN, -INF}) { V q = p; q.back() = w; CHECK(throws([&] { r.N(b, q); }), "RBJ::%s setupN%s does not throw", r.n, show(q).c_str()); } }
}
// ------------------------------------------------------------------ C11
static void C11(int n) {
  static const double sp[] = {NaN, INF, -INF, 0.0, -0.0, 1, -1, 0.5, 0.25, 1e-300, -1e-300, 1e300, -1e300, 5e-324, 0.1, 1e-9, 40, -40, 6, 1e-8, 0.49999999, 1000, -1000, 1e-160, 1e160};
  const int K = sizeof sp / sizeof *sp; auto val = [&](double g) { return pick(3) ? sp[pick(K)] : pick(3) ? g : uni(-1, 1); };
  auto nan = [](const V& v) { for (double x : v) if (std::isnan(x)) return true; return false; };
  for (int k = 0; k < 4000 * n; k++) {
    V c(8); for (double& x : c) x = val(0.3); Biquad b; bool t; if (k < K * 6) { for (double& x : c) x = 0.5; c[k % 6] = sp[k / 6]; }
    t = throws([&] { b.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]); }); CHECK(t || !nan(coefs(b)), "setCoefficients%s leaves %s", show(c).c_str(), show(coefs(b)).c_str());
    Biquad b2; t = throws([&] { b2.setOnePole(complex_t(c[0], pick(2) ? 0 : c[1]), complex_t(c[2], pick(2) ? 0 : c[3])); }); CHECK(t || !nan(coefs(b2)), "setOnePole %s leaves %s", show(c).c_str(), show(coefs(b2)).c_str());
    bool cj = pick(2); Biquad b3; t = throws([&] { complex_t P(c[0], cj ? c[1] : 0), Z(c[2], cj ? c[3] : 0); b3.setTwoPole(P, Z, cj ? std::conj(P) : c[4], cj ? std::conj(Z) : c[5]); }); CHECK(t || !nan(coefs(b3)), "setTwoPole %s leaves %s", show(c).c_str(), show(coefs(b3)).c_str());
    Custom::OnePole o; t = throws([&] { o.setup(c[0], c[1], c[2]); }); CHECK(t || !nan(coefs(o)), "Custom::OnePole setup(%g, %g, %g) leaves %s", c[0], c[1], c[2], show(coefs(o)).c_str());
    Custom::TwoPole w; t = throws([&] { w.setup(c[0], std::fabs(c[1]), c[2], std::fabs(c[3]), c[4]); }); CHECK(t || !nan(coefs(w)), "Custom::TwoPole setup %s leaves %s", show(c).c_str(), show(coefs(w)).c_str());
    double m[2][6]; for (auto& r : m) for (double& x : r) x = val(0.7); Custom::SOSCascade<2> q; t = throws([&] { q.setup(m); }); CHECK(t || !(nan(coefs(q.getCascadeStorage().stageArray[0])) || nan(coefs(q.getCascadeStorage().stageArray[1]))), "SOSCascade setup with %s leaves NaN", show(V(m[0], m[0] + 12)).c_str());
    b = mkbq(stable(1)); t = throws([&] { b.applyScale(c[0]); }); CHECK(t || !nan(coefs(b)), "applyScale(%g) leaves NaN", c[0]);
  }
  for (int k = 0; k < 600 * n; k++) for (int f = 0; f < 3; f++) for (int t = 0; t < 7; t++) { int N = 1 + pick(4); V p = good(f, t, pick(20)); for (double& x : p) x = val(x); if (k % 3 == 0) { p = good(f, t, pick(20)); p[pick(p.size())] = sp[pick(K)]; }
    P F = mk(f, t, N, pick(3)); bool e = throws([&] { if (k % 2) F->setN(p.data()); else F->setNo(1 + pick(N), p.data()); }); CHECK(e || !nan(coefs(*F)), "%s leaves %s", nm(f, t, N, p).c_str(), show(coefs(*F)).c_str());
    if (k % 5 == 0) { double s = sp[pick(K)]; e = throws([&] { F->setHz(s, p.data()); }); CHECK(e || !nan(coefs(*F)), "%s sampling rate %g leaves %s", nm(f, t, N, p).c_str(), s, show(coefs(*F)).c_str()); } }
  for (auto& r : rbjtab()) for (int k = 0; k < 2000 * n; k++) { V p = rbjgood(r, pick(30)); if (k % 2) p[pick(p.size())] = sp[pick(K)]; else for (double& x : p) x = val(x); Biquad b; bool e = throws([&] { r.N(b, p); }); CHECK(e || !nan(coefs(b)), "RBJ::%s setupN%s leaves %s", r.n, show(p).c_str(), show(coefs(b)).c_str()); }
}
// ------------------------------------------------------------------ C12 (built with address and undefined behaviour sanitizers)
static void C12(int n) {
  static const double sp[] = {NaN, INF, -INF, 0.0, 1, -1, 0.5, 0.25, 1e300, 5e-324, 0.1, 1e-9, 40, -40, 6};
  for (int k = 0; k < 10 * n; k++) for (int f = 0; f < 3; f++) for (int t = 0; t < 7; t++) for (int N : {1, 2, 3, 4, 5, 6, 7, 9, 12}) {
    P F = mk(f, t, N, N <= 4 ? pick(3) : 1); V p = good(f, t, k); if (k % 3 == 2) p[pick(p.size())] = sp[pick(15)];
    static const int os[] = {0, -1, 1, 2, 3, 4, 5, 8, 9, 10, 16, 100, 2147483647, -2147483647};
    for (int j = 0; j < 4; j++) {
      int o = j == 0 ? N : j == 1 ? N + 1 : os[pick(14)]; bool e = throws([&] { if (j == 3) F->setN(p.data()); else F->setNo(o, p.data()); });
      CHECK(F->num() >= 0 && F->num() <= F->max(), "%s order %d: %d sections of %d in use", nm(f, t, N, p).c_str(), o, F->num(), F->max());
      for (int i : {-1, F->num(), F->num() + 1, F->max(), 1000000, (int)-2147483648}) CHECK(throws([&] { volatile double x = F->at(i).getB0(); (void)x; }), "%s<%d> section %d of %d accessible", TN[t], N, i, F->num());
      for (int i = 0; i < F->num(); i++) F->at(i).getB0();
      try { F->pz(); } catch (const std::exception&) {}
      try { F->response(uni(0, 0.5)); F->response(sp[pick(15)]); } catch (const std::exception&) {}
      try { F->scale(uni(0, 2)); } catch (const std::exception&) {}
      for (int i = 0; i < 5; i++) F->filter(uni(-1, 1)); F->filter(1.0f); F->reset();
    }
    P G(F->copy()); G->filter(1.0); F->assign(G.get()); F.reset(); G->filter(0.5); try { G->setN(p.data()); G->pz(); } catch (const std::exception&) {} }
  for (int cap = 1; cap <= 9; cap++) { std::vector<PoleZeroPair> st((cap + 1) / 2); 
    LayoutBase l(cap, st.data());
    for (int i : {-1, (cap + 1) / 2, cap, 100, -100}) if (i < 0 || i >= (cap + 1) / 2) CHECK(throws([&] { (void)l[i]; }) && throws([&] { (void)l.getPair(i); }), "pair %d of a layout for %d poles accessible", i, cap);
    for (int i = 0; i < 12; i++) { try { if (l.getNumPoles() + 2 > cap) l.reset(); if (cap == 1 || pick(3) == 0) l.add(0.5, 0.1); else l.addPoleZeroConjugatePairs(complex_t(0.1, 0.2), complex_t(0.3, 0.4)); } catch (const std::exception&) { l.reset(); }
      for (int j : {-1, (l.getNumPoles() + 1) / 2, 1000}) CHECK(throws([&] { (void)l[j]; }) && throws([&] { (void)l.getPair(j); }), "pair %d of a layout with %d poles accessible", j, l.getNumPoles()); } }
}
// ------------------------------------------------------------------ C13
static void C13(int n) {
  each(n > 10 ? 30 : 6, [&](int f, int t, int N, const V& p, int r) {
    P A = mk(f, t, N), B = mk(f, t, N); std::string hist; int o = 1 + pick(N); std::vector<V> used{p};
    int steps = 1 + pick(4);
    for (int k = 0; k < steps; k++) { V q = pick(2) ? good(f, t, 10 + k) : p; int m = pick(4) ? 1 + pick(N) : pick(2) ? o : N + 1;
      switch (pick(8)) { case 0: q[0] = 0.7; break; case 1: q[0] = -1; break; case 2: if (band(t)) q[1] = 0; break; case 3: q.back() = NaN; break; case 4: if (q.size() > 1) q.back() = p.back(); break; case 5: if (q.size() > 1) { q = p; q[q.size() - 1 - pick(q.size() > 2 ? 2 : 1)] *= 1.5; m = o; } break; case 6: q[0] = NaN; break; }
      hist += fmt(" setupN(%d, %s)", m, show(q).c_str()); try { A->setNo(m, q.data()); } catch (const std::exception&) { hist += " throws;"; 
        CHECK(throws([&] { A->setNo(m, q.data()); }), "%s::%s<%d>:%s and does not throw when repeated", FN[f], TN[t], N, hist.c_str()); }
      if (pick(4) == 0) for (int i = 0; i < 3; i++) A->filter(1.0); }
    if (pick(4) == 0) { V q = p; int j = pick(q.size()); q[j] = pick(4) ? -q[j] : pick(2) ? 0 : NaN; bool sa, sb; hist += fmt(" setupN(%d, %s);", o, show(p).c_str()); throws([&] { A->setNo(o, p.data()); }); sa = throws([&] { A->setNo(o, q.data()); }); P C = mk(f, t, N); sb = throws([&] { C->setNo(o, q.data()); });
      CHECK(sa == sb && (sa || same(report(*A), report(*C))), "%s::%s<%d> after%s setupN(%d, %s) %s, other than a new filter", FN[f], TN[t], N, hist.c_str(), o, show(q).c_str(), sa ? "throws" : "does not throw or differs"); hist += fmt(" setupN(%d, %s);", o, show(q).c_str()); }
    bool ta = throws([&] { A->setNo(o, p.data()); }), tb = throws([&] { B->setNo(o, p.data()); });
    CHECK(ta == tb, "%s::%s<%d> after%s setupN(%d, %s) %s", FN[f], TN[t], N, hist.c_str(), o, show(p).c_str(), ta ? "throws" : "does not throw");
    if (!ta && !tb) CHECK(same(report(*A), report(*B)), "%s::%s<%d> after%s setupN(%d, %s) differs from a new filter", FN[f], TN[t], N, hist.c_str(), o, show(p).c_str()); });
  for (auto& r : rbjtab()) for (int k = 0; k < 10 * n; k++) { V p = rbjgood(r, k), q = rbjgood(r, k + 3); if (k % 3 == 1) q[0] = 0.6; if (k % 3 == 2) q.back() = NaN; Biquad a, b; try { r.N(a, q); } catch (const std::exception&) {} r.N(a, p); r.N(b, p); CHECK(same(coefs(a), coefs(b)), "RBJ::%s setupN%s after setupN%s", r.n, show(p).c_str(), show(q).c_str()); }
  // parameters which agree to single precision: g set up far from f, then right after f
  for (auto& r : rbjtab()) for (int k = 0; k < n; k++) for (int j = 0; j < r.np; j++) for (double e : {1e-10, 1e-6, 1e-13}) { V p = rbjgood(r, k), far = rbjgood(r, k + 1), g = p; if (pick(3)) for (double& x : p) x = (float)x; g = p; g[j] += e * (j ? std::fabs(p[j]) : 0.1); if (far[0] == p[0]) far[0] *= 0.5; for (size_t i = 1; i < far.size(); i++) far[i] *= 0.83;
      Biquad a, b, c, d; r.N(a, far); r.N(b, g); r.N(c, far); r.N(c, p); r.N(d, g); CHECK(same(coefs(b), coefs(d)), "RBJ::%s setupN%s differs after setupN%s", r.n, show(g).c_str(), show(p).c_str()); }
  for (int k = 0; k < (n > 40 ? 20 : 5); k++) for (int f = 0; f < 3; f++) for (int t = 0; t < 7; t++) for (int N : {1, 2, 3, 4}) { V p = good(f, t, k), far = good(f, t, k + 1), g = p; int j = pick(p.size()); g[j] *= 1 + (k % 2 ? 1e-10 : 1e-7); P A = mk(f, t, N), B = mk(f, t, N), C = mk(f, t, N);
      A->setN(far.data()); B->setN(g.data()); A->setN(far.data()); A->setN(p.data()); C->setN(g.data()); CHECK(same(report(*B), report(*C)), "%s differs after setupN%s of another filter", nm(f, t, N, g).c_str(), show(p).c_str()); A->setN(g.data()); CHECK(same(report(*B), report(*A)), "%s differs after setupN%s", nm(f, t, N, g).c_str(), show(p).c_str()); }
  for (int k = 0; k < 20 * n; k++) { Custom::TwoPole a, b; a.setup(uni(1, 2), 0.5, 1, 0.7, 2); double v[5] = {uni(-2, 2), uni(0, 0.9), uni(-3, 3), uni(0, 2), uni(-3, 3)}; a.setup(v[0], v[1], v[2], v[3], v[4]); b.setup(v[0], v[1], v[2], v[3], v[4]); CHECK(same(coefs(a), coefs(b)), "Custom::TwoPole setup%s twice", show(V(v, v + 5)).c_str());
    Custom::OnePole c, d; c.setup(3, 0.2, 0.1); c.setup(v[0], v[1], v[2]); d.setup(v[0], v[1], v[2]); CHECK(same(coefs(c), coefs(d)), "Custom::OnePole setup again"); }
}
// ------------------------------------------------------------------ C14
static void C14(int n) {
  each(n > 10 ? 10 : 3, [&](int f, int t, int N, const V& p, int r) { for (int o : NS) if (o <= N) {
    P A = mk(f, t, N), B = mk(f, t, o); if (r) { A->setN(good(f, t, r + 2).data()); } A->setNo(o, p.data()); B->setN(p.data()); std::string s = nm(f, t, o, p) + fmt(" in a filter for order %d", N);
    int want = t == BP || t == BS || t == BSH ? o : (o + 1) / 2; CHECK(A->num() == want, "%s: %d sections", s.c_str(), A->num()); CHECK((int)A->pz().size() == want, "%s: %zu pole/zero pairs", s.c_str(), A->pz().size());
    V a = coefs(*A), b = coefs(*B); V id{1, 0, 0, 1, 0, 0}; CHECK(same(V(a.begin(), a.begin() + std::min(a.size(), b.size())), b), "%s: coefficients differ from those of a filter for that order", s.c_str());
    for (int i = want; i < A->max(); i++) CHECK(same(V(a.begin() + 6 * i, a.begin() + 6 * i + 6), id), "%s: section %d is not the identity: %s", s.c_str(), i, show(coefs(A->stages()[i])).c_str());
    for (int i = 0; i < want && i < A->max(); i++) { bool first = A->stages()[i].getA2() == 0 && A->stages()[i].getB2() == 0; bool odd = !band(t) && o % 2 && i == want - 1; if (odd) CHECK(first, "%s: section %d is not of first order", s.c_str(), i); }
    A->reset(); for (int i = 0; i < 30; i++) { double x = uni(-1, 1), u = A->filter(x), w = B->filter(x); CHECK(bits(u, w), "%s: sample %d %.17g, filter for that order %.17g", s.c_str(), i, u, w); }
    for (double x : {0.0, 0.1, 0.3, 0.5}) { complex_t u = A->response(x), w = B->response(x); CHECK(bits(u.real(), w.real()) && bits(u.imag(), w.imag()), "%s: response(%g)", s.c_str(), x); } } });
  for (int f = 0; f < 3; f++) for (int t = 0; t < 7; t++) { V p = good(f, t, 0); P A = mk(f, t, BIGN); for (int o = BIGN; o >= 1; o--) { A->setNo(o, p.data()); int want = band(t) ? o : (o + 1) / 2; std::string s = nm(f, t, o, p) + fmt(" in a filter for order %d", BIGN);
    CHECK(A->num() == want, "%s: %d sections", s.c_str(), A->num()); CHECK((int)A->pz().size() == want, "%s: %zu pole/zero pairs", s.c_str(), A->pz().size()); V a = coefs(*A); V id{1, 0, 0, 1, 0, 0};
    for (int i = want; i < A->max(); i++) CHECK(same(V(a.begin() + 6 * i, a.begin() + 6 * i + 6), id), "%s: section %d is not the identity: %s", s.c_str(), i, show(coefs(A->stages()[i])).c_str());
    for (int i = 0; i < want; i++) CHECK(A->stages()[i].getA1() != 0 || A->stages()[i].getA2() != 0, "%s: section %d has no pole", s.c_str(), i);
    double x[40], y[40]; A->reset(); for (int i = 0; i < 40; i++) { x[i] = uni(-1, 1); y[i] = A->filter(x[i]); }
    for (int i = 0; i < want; i++) { double h[4] = {}; V c(a.begin() + 6 * i, a.begin() + 6 * i + 6); for (int j = 0; j < 40; j++) x[j] = ref2(c, x[j], h); }
    for (int i = 0; i < 40; i++) CHECK(near(x[i], y[i], 1e-4, 1e-6), "%s: sample %d %.17g, of its sections %.17g", s.c_str(), i, y[i], x[i]); } } }
// ------------------------------------------------------------------ C15
static void C15(int n) {
  static const double srs[] = {1000, 44100, 8, 48000, 3.3, 1, 0.25, 1e-3, 1e6, 2e9, 0.7};
  each(n > 10 ? 12 : 3, [&](int f, int t, int N, const V& p, int r) { double sr = srs[(r + t + N) % 11]; V h = p; h[0] *= sr; if (band(t)) h[1] *= sr; V q = p; q[0] = h[0] / sr; if (band(t)) q[1] = h[1] / sr;
    P A = mk(f, t, N), B = mk(f, t, N), C = mk(f, t, N), D = mk(f, t, N), E = mk(f, t, N), G = mk(f, t, N), H = mk(f, t, N); int o = 1 + (N - 1) / 2; std::string s = nm(f, t, N, q) + fmt(" sampling rate %g", sr);
    A->setN(q.data()); B->setNo(N, q.data()); C->setHz(sr, h.data()); D->setHzo(N, sr, h.data()); E->setNo(o, q.data()); G->setHzo(o, sr, h.data());
    CHECK(same(report(*A), report(*B)), "%s: setupN with and without the order differ", s.c_str()); 
    auto cl = [](Filt& a, Filt& b) { V x = coefs(a), y = coefs(b); if (a.num() != b.num()) return false; for (size_t i = 0; i < x.size(); i++) if (std::fabs(x[i] - y[i]) > 1e-6 * (std::fabs(x[i]) + 1e-3)) return false; return true; };
    CHECK(cl(*A, *C), "%s: setup differs from setupN", s.c_str()); CHECK(cl(*B, *D), "%s: setup with order differs from setupN", s.c_str()); CHECK(cl(*E, *G), "%s: setup with order %d differs from setupN", s.c_str(), o);
    if (N > 1) { P A1 = mk(f, t, N), A2 = mk(f, t, N); for (int i = 0; i < (int)p.size(); i++) { V z = q; z[i] *= 0.9; A1->setN(z.data()); V zh = z; zh[0] *= sr; if (band(t)) zh[1] *= sr; A2->setHz(sr, zh.data()); CHECK(cl(*A1, *A2), "%s with parameter %d changed: setup differs from setupN", s.c_str(), i); } } });
  for (auto& r : rbjtab()) for (int k = 0; k < 10 * n; k++) { V p = rbjgood(r, k); double sr = srs[k % 11]; V h = p; h[0] *= sr; V q = p; q[0] = h[0] / sr; Biquad a, b; r.N(a, q); r.Hz(b, sr, h); CHECK(close(coefs(a), coefs(b), 1e-9), "RBJ::%s setup(%g, %s) differs from setupN", r.n, sr, show(h).c_str());
    if (r.Nd) { V d = q; d.back() = r.dflt; r.N(a, d); r.Nd(b, q); CHECK(close(coefs(a), coefs(b), 1e-9), "RBJ::%s setupN%s: default argument is not %g", r.n, show(q).c_str(), r.dflt); r.Hzd(b, sr, h); CHECK(close(coefs(a), coefs(b), 1e-9), "RBJ::%s setup: default argument is not %g", r.n, r.dflt); } } }
// ------------------------------------------------------------------ C16, C17
static double maxpole(const Biquad& b) { L a1 = (L)b.getA1() / b.getA0(), a2 = (L)b.getA2() / b.getA0(); CL d = std::sqrt(CL(a1 * a1 - 4 * a2)); return std::max(std::abs((-a1 + d) / (L)2), std::abs((-a1 - d) / (L)2)); }
static void C16(int n) {
  each(n > 10 ? 60 : 10, [&](int f, int t, int N, const V& p, int r) { P F = mk(f, t, N); try { F->setN(p.data()); } catch (const std::exception&) { CHECK(false, "%s throws", nm(f, t, N, p).c_str()); return; }
    for (auto& z : F->pz()) for (complex_t c : {z.poles.first, z.poles.second}) CHECK(std::abs(c) < 1, "%s: pole of modulus %.17g", nm(f, t, N, p).c_str(), std::abs(c));
    for (int i = 0; i < F->num(); i++) CHECK(maxpole(F->stages()[i]) < 1 - 1e-13, "%s: section %d has a pole of modulus %.17g", nm(f, t, N, p).c_str(), i, maxpole(F->stages()[i])); });
  auto lg = [](double a, double b) { return std::exp(uni(std::log(a), std::log(b))); };
  for (int k = 0; k < (n > 10 ? 600 : 100); k++) for (int f = 0; f < 3; f++) for (int t = 0; t < 7; t++) { int N = 1 + k % 3; V p; if (band(t)) { double a = uni(0.03, 0.4), b = uni(a + 0.02, 0.47); p = {(a + b) / 2, b - a}; } else p = {uni(0.03, 0.47)};
    double g = lg(1e-4, 60) * (pick(2) ? 1 : -1); if (shelf(t)) p.push_back(g); if (f != BW) p.push_back(shelf(t) ? std::fabs(g) * uni(0.01, 0.99) : f == C1 ? lg(1e-10, 12) : lg(1e-3, 200)); P F = mk(f, t, N); F->setN(p.data());
    for (auto& z : F->pz()) for (complex_t c : {z.poles.first, z.poles.second}) CHECK(std::abs(c) < 1 - 1e-15, "%s: pole of modulus %.17g", nm(f, t, N, p).c_str(), std::abs(c)); }
  for (int f = 0; f < 3; f++) for (int t = 0; t < 7; t++) { V p = good(f, t, 0); P F = mk(f, t, BIGN); for (int o = 1; o <= BIGN; o++) { F->setNo(o, p.data()); for (auto& z : F->pz()) for (complex_t c : {z.poles.first, z.poles.second}) CHECK(std::abs(c) < 1, "%s: pole of modulus %.17g", nm(f, t, o, p).c_str(), std::abs(c)); } } }
static void C17(int n) { for (auto& r : rbjtab()) for (int k = 0; k < 60 * n; k++) { V p = rbjgood(r, k); Biquad b; r.N(b, p); CHECK(maxpole(b) < 1, "RBJ::%s setupN%s: pole of modulus %.17g", r.n, show(p).c_str(), maxpole(b)); } }
// ------------------------------------------------------------------ C18
static void C18(int n) { for (auto& r : rbjtab()) for (int k = 0; k < 30 * n; k++) { std::string nmn0 = r.n; V p = rbjgood(r, k); if (k >= 10) p[0] = uni(0.01, 0.49); if (p.size() > 2 && k % 4 == 3) p[1] = pick(3) ? uni(-100, 100) : uni(-1e-3, 1e-3); if (nmn0 == "BandShelf") p.back() = std::min(p.back(), 2 * std::sin(2 * PI * p[0]) / (2 * PI * p[0])); else if (!r.kind && k >= 10) p.back() = uni(0.2, 10); Biquad b; r.N(b, p); std::string s = fmt("RBJ::%s setupN%s", r.n, show(p).c_str()), nmn = r.n;
    auto G = [&](double f, double want, const char* w) { double g = std::abs(evalsec(b, f)); double g2 = std::abs(b.response(f)); CHECK(std::fabs(g - want) <= 1e-5 * (want + 0.01) && std::fabs(g2 - want) <= 1e-5 * (want + 0.01), "%s: gain at %s %.12g, documented %.12g", s.c_str(), w, g, want); };
    double f = p[0], q = p.back(), A = p.size() > 2 ? std::pow(10, p[1] / 20) : 1; if (f < 0.005 || f > 0.495 || q > 20 || q < 0.05) continue;
    if (nmn == "LowPass") { G(0, 1, "DC"); G(0.5, 0, "Nyquist"); G(f, q, "the cutoff"); }
    if (nmn == "HighPass") { G(0, 0, "DC"); G(0.5, 1, "Nyquist"); G(f, q, "the cutoff"); }
    if (nmn == "BandPass1") { G(f, q, "the centre"); G(0, 0, "DC"); G(0.5, 0, "Nyquist"); }
    if (nmn == "BandPass2") { G(f, 1, "the centre"); G(0, 0, "DC"); G(0.5, 0, "Nyquist"); }
    if (nmn == "BandStop") { G(f, 0, "the centre"); G(0, 1, "DC"); G(0.5, 1, "Nyquist"); }
    if (nmn == "IIRNotch") G(f, 0, "the centre");
    if (nmn == "AllPass") for (double x : {0.0, 0.5, f, 0.2, uni(0, 0.5)}) G(x, 1, "some frequency");
    if (nmn == "LowShelf") { G(0, A, "DC"); G(0.5, 1, "Nyquist"); }
    if (nmn == "HighShelf") { G(0.5, A, "Nyquist"); G(0, 1, "DC"); }
    if (nmn == "BandShelf") { G(f, A, "the centre"); G(0, 1, "DC"); G(0.5, 1, "Nyquist"); } } }
// ------------------------------------------------------------------ C19 - C23, C26: magnitude laws
static double omega(int t, const V& p, double f) { // analogue frequency of the prototype
  double T = std::tan(PI * f), c = std::tan(PI * p[0]);
  if (t == LP || t == LS) return T / c; if (t == HP || t == HS) return c / T;
  double t1 = std::tan(PI * (p[0] - p[1] / 2)), t2 = std::tan(PI * (p[0] + p[1] / 2)), w = std::fabs((T * T - t1 * t2) / (T * (t2 - t1)));
  return t == BS ? 1 / w : w; }
static double centre(const V& p) { return std::atan(std::sqrt(std::tan(PI * (p[0] - p[1] / 2)) * std::tan(PI * (p[0] + p[1] / 2)))) / PI; }
static double cheb(int n, double x) { x = std::fabs(x); return x <= 1 ? std::cos(n * std::acos(x)) : std::cosh(n * std::acosh(x)); }
static double law(int f, int t, int n, const V& p, double fr) { // |H|^2
  double w = omega(t, p, fr), a = p.back();
  if (f == BW && !shelf(t)) return 1 / (1 + std::pow(w, 2 * n));
  if (f == BW) { double G = std::pow(10, a / 20); if (t == BSH) w = omega(BP, p, fr); double x = std::pow(w, 2 * n); return std::isinf(x) ? 1 : (x + G) / (x + 1 / G); }
  if (f == C1) { double e2 = std::pow(10, a / 10) - 1, T = cheb(n, w); return 1 / (1 + e2 * T * T); }
  double e2 = 1 / (std::pow(10, a / 10) - 1), T = cheb(n, 1 / w); return std::isinf(T) ? 1 : 1 / (1 + 1 / (e2 * T * T)); }
static bool usable(int t, const V& p, int N) { double a, b; if (band(t)) { a = p[0] - p[1] / 2; b = p[0] + p[1] / 2; return a > 0.012 && b < 0.488 && b - a > (N > 6 ? 0.08 : 0.02); } return p[0] > (N > 6 ? 0.03 : 0.009) && p[0] < (N > 6 ? 0.47 : 0.491); }
static void laws(int n, int fam, bool sh, double scale = 1) {
  each(n > 10 ? 40 : 10, [&](int f, int t, int N, const V& p, int r) { if (!usable(t, p, N)) return; P F = mk(f, t, N); if (r % 4 == 3) F->setNo((N + 1) / 2, good(f, t, 1).data()); F->setN(p.data());
    std::vector<double> fr{0.001, 0.499, 0.25, p[0], 0.1, 0.2, 0.3, 0.4}; for (int i = 0; i < 6; i++) fr.push_back(uni(0.002, 0.498)); if (band(t)) { fr.push_back(p[0] - p[1] / 2); fr.push_back(p[0] + p[1] / 2); fr.push_back(centre(p)); }
    for (double x : fr) { double w = law(f, t, N, p, x), g = std::norm(evalall(*F, x)); if (std::isnan(w)) continue; bool stopz = w < 1e-9;
      CHECK(stopz ? g < 1e-6 : std::fabs(g - w) <= 2e-3 * w, "%s: |H(%.17g)|^2 = %.12g, law %.12g", nm(f, t, N, p).c_str(), x, g, w); }
  }, [&](int f, int t) { return f == fam && shelf(t) == sh; });
  for (int t = 0; t < 7; t++) if (shelf(t) == sh && !(sh && fam != BW)) { P F = mk(fam, t, BIGN); for (int o = 8; o <= BIGN; o++) { V p = good(fam, t, 0); F->setNo(o, p.data()); std::vector<double> fr{0.1, 0.2, 0.25, 0.3, 0.08, 0.4, uni(0.05, 0.45)};
    for (double x : fr) { double w = law(fam, t, o, p, x), g = std::norm(evalall(*F, x)); if (std::isnan(w) || w < 1e-8) continue; CHECK(std::fabs(g - w) <= 5e-3 * w, "%s in a filter for order %d: |H(%.17g)|^2 = %.12g, law %.12g", nm(fam, t, o, p).c_str(), BIGN, x, g, w); } } } }
// low and middle orders, where doubles follow the laws closely: parameters over several decades, and earlier setups of the same filter
static void closely(int n, int fam, bool sh) {
  auto lg = [](double a, double b) { return std::exp(uni(std::log(a), std::log(b))); };
  auto par = [&](int t) { V p; if (band(t)) { double a = uni(0.04, 0.4), b = uni(a + 0.03, 0.46); p = {(a + b) / 2, b - a}; } else p = {uni(0.04, 0.46)};
    double g = lg(0.003, 50) * (pick(2) ? 1 : -1); if (shelf(t)) p.push_back(g); if (fam != BW) p.push_back(shelf(t) ? std::fabs(g) * uni(0.01, 0.99) : fam == C1 ? lg(3e-4, 12) : lg(0.3, 150)); return p; };
  for (int k = 0; k < (n > 40 ? 1500 : 300); k++) for (int t = 0; t < 7; t++) if (shelf(t) == sh) {
    static const int NN[] = {1, 2, 3, 4, 5, 6, 7}; int N = NN[k % 7], o = k % 3 == 2 ? 1 + pick(N) : N; V p = par(t); P F = mk(fam, t, N); std::string hist;
    for (int h = 0; h < k % 4; h++) { V q = p; int m = pick(2) ? o : 1 + pick(N); int i = pick((int)p.size());
      switch (pick(5)) { case 0: q = par(t); break; case 1: if (shelf(t)) { q[p.size() - (fam == BW ? 1 : 2)] *= -1; } break; case 2: q[i] *= 0.9; break; case 3: q.back() *= 0.5; break; case 4: m = o > 1 ? o - 1 : N; break; }
      hist += fmt(" setupN(%d, %s)", m, show(q).c_str()); try { F->setNo(m, q.data()); } catch (const std::exception&) {} }
    F->setNo(o, p.data()); std::string s = nm(fam, t, o, p) + (hist.size() ? " after" + hist : ""); double tol = o <= 3 ? 3e-7 : 1e-5;
    if (sh && fam != BW) { double g = p[p.size() - 2], want = o % 2 ? g : g > 0 ? g - p.back() : g + p.back(); std::vector<std::pair<double, double>> at; if (t == LS) at = {{0, want}, {0.5, 0}}; else if (t == HS) at = {{0.5, want}, {0, 0}}; else at = {{centre(p), want}, {0, 0}, {0.5, 0}};
      for (auto& a : at) { double G = 20 * std::log10(std::abs(evalall(*F, a.first))); CHECK(std::fabs(G - a.second) < 10 * tol, "%s: %.12g dB at %.17g, requested %.12g dB", s.c_str(), G, a.first, a.second); } continue; }
    std::vector<double> fr{0.001, 0.499, 0.25, p[0], uni(0.01, 0.49), uni(0.01, 0.49), uni(0.01, 0.49)}; if (band(t)) { fr.push_back(p[0] - p[1] / 2); fr.push_back(p[0] + p[1] / 2); fr.push_back(centre(p)); }
    for (double x : fr) { double w = law(fam, t, o, p, x), g = std::norm(evalall(*F, x)); if (std::isnan(w) || w < 1e-5) continue; CHECK(std::fabs(g - w) <= tol * w, "%s: |H(%.17g)|^2 = %.12g, law %.12g", s.c_str(), x, g, w); } } }
static void C20(int n) { closely(n, BW, false); laws(n, BW, false); }
static void C21(int n) { closely(n, C1, false); laws(n, C1, false); }
static void C22(int n) { closely(n, C2, false); laws(n, C2, false); }
static double refof(int t, const V& p) { return t == LP || t == HS ? 0 : t == HP || t == LS ? 0.5 : t == BP ? centre(p) : centre(p) < 0.25 ? 0.5 : 0; }
static void C19(int n) {
  for (int f = 0; f < 3; f++) for (int t = 0; t < 7; t++) { P F = mk(f, t, BIGN); for (int o = 1; o <= BIGN; o++) { V p = good(f, t, band(t) ? 1 : 0); F->setNo(o, p.data()); double ref = refof(t, p), want = f == C1 && !shelf(t) && o % 2 == 0 ? std::pow(10, -p.back() / 20) : 1, g = std::abs(evalall(*F, ref)), g2 = std::abs(F->response(ref));
    CHECK(std::fabs(g - want) <= 1e-3 * want && std::fabs(g2 - want) <= 1e-3 * want, "%s in a filter for order %d: gain %.12g, response() %.12g at the reference frequency %.12g, nominal %.12g", nm(f, t, o, p).c_str(), BIGN, g, g2, ref, want); } }
  each(n > 10 ? 40 : 10, [&](int f, int t, int N, const V& p, int r) { if (!usable(t, p, N)) return; P F = mk(f, t, N); if (r % 3 == 2) F->setNo(1 + N / 2, good(f, t, 3).data()); F->setN(p.data()); double ref, want = 1;
    if (t == LP) ref = 0; else if (t == HP) ref = 0.5; else if (t == BP) ref = centre(p); else if (t == LS) ref = 0.5; else if (t == HS) ref = 0; else ref = centre(p) < 0.25 ? 0.5 : 0;
    if (band(t) && t != BP && std::fabs(centre(p) - 0.25) < 1e-6) return;
    if (f == C1 && !shelf(t) && N % 2 == 0) want = std::pow(10, -p.back() / 20);
    double g = std::abs(evalall(*F, ref)); CHECK(std::fabs(g - want) <= 1e-3 * want, "%s: gain %.12g at the reference frequency %.12g, nominal %.12g", nm(f, t, N, p).c_str(), g, ref, want);
    double g2 = std::abs(F->response(ref)); CHECK(std::fabs(g2 - want) <= 1e-3 * want, "%s: response() %.12g at the reference frequency %.12g, nominal %.12g", nm(f, t, N, p).c_str(), g2, ref, want); });
  // low orders are well conditioned: a close look, with small shelf gains too
  for (int k = 1; k <= 400; k++) for (int f = 0; f < 3; f++) for (int t = 0; t < 7; t++) { int N = 1 + k % 2; V p = good(f, t, 3); double x = 0.03 + 0.44 * k / 401.0; p[0] = x; if (band(t)) { p[0] = 0.1 + 0.3 * k / 401.0; p[1] = 0.06 + 0.1 * ((k * 7) % 100) / 100.0; }
    if (shelf(t)) { double g = (k % 4 < 2 ? 0.0007 : 0.05) * k * (k % 2 ? 1 : -1); if (f == BW) p.back() = g; else { p[p.size() - 2] = g; p.back() = std::fabs(g) * 0.3; } }
    if (!usable(t, p, N)) continue; if (band(t) && t != BP && std::fabs(centre(p) - 0.25) < 1e-3) continue; P F = mk(f, t, N); F->setN(p.data()); double ref = t == LP || t == HS ? 0 : t == HP || t == LS ? 0.5 : t == BP ? centre(p) : centre(p) < 0.25 ? 0.5 : 0, want = f == C1 && !shelf(t) && N % 2 == 0 ? std::pow(10, -p.back() / 20) : 1;
    double g = std::abs(evalall(*F, ref)), g2 = std::abs(F->response(ref)); CHECK(std::fabs(g - want) <= 2e-6 * want && std::fabs(g2 - want) <= 2e-6 * want, "%s: gain %.12g, response() %.12g at the reference frequency %.12g, nominal %.12g", nm(f, t, N, p).c_str(), g, g2, ref, want); } }
static void C23(int n) {
  for (int f = 1; f < 3; f++) for (int t = LS; t <= BSH; t++) { P F = mk(f, t, BIGN); for (int o = 1; o <= BIGN; o++) { V p = good(f, t, 0); F->setNo(o, p.data()); double g = p[p.size() - 2], want = o % 2 ? g : g > 0 ? g - p.back() : g + p.back();
    std::vector<std::pair<double, double>> at; if (t == LS) at = {{0, want}, {0.5, 0}}; else if (t == HS) at = {{0.5, want}, {0, 0}}; else at = {{centre(p), want}, {0, 0}, {0.5, 0}};
    for (auto& a : at) { double G = 20 * std::log10(std::abs(evalall(*F, a.first))); CHECK(std::fabs(G - a.second) < 0.02, "%s in a filter for order %d: %.9g dB at %.9g, requested %.9g dB", nm(f, t, o, p).c_str(), BIGN, G, a.first, a.second); } } }
  for (int f = 0; f < 3; f++) closely(n, f, true); laws(n, BW, true);
  each(n > 10 ? 40 : 10, [&](int f, int t, int N, const V& p, int r) { if (!usable(t, p, N)) return; double g = p[p.size() - 2], rip = p.back(); P F = mk(f, t, N); F->setN(p.data()); double at = t == LS ? 0 : t == HS ? 0.5 : centre(p), other = t == LS ? 0.5 : t == HS ? 0 : centre(p) < 0.25 ? 0.5 : 0;
    double want = N % 2 ? g : g > 0 ? g - rip : g + rip, G = 20 * std::log10(std::abs(evalall(*F, at))), O = 20 * std::log10(std::abs(evalall(*F, other)));
    CHECK(std::fabs(G - want) < 0.02, "%s: %.9g dB on the shelf, requested %.9g dB", nm(f, t, N, p).c_str(), G, want); CHECK(std::fabs(O) < 0.02, "%s: %.9g dB on the other side", nm(f, t, N, p).c_str(), O);
    if (t == BSH) for (double e : {0.0, 0.5}) { double Q = 20 * std::log10(std::abs(evalall(*F, e))); CHECK(std::fabs(Q) < 0.02, "%s: %.9g dB at %g", nm(f, t, N, p).c_str(), Q, e); } }, [](int f, int t) { return f != BW && shelf(t); }); }
// ------------------------------------------------------------------ C24
static void C24(int n) { for (int s = 0; s < 3; s++) for (int f = 0; f < 3; f++) for (int t = 0; t < 7; t++) for (int N : {1, 2, 3, 4}) for (int r = 0; r < (n > 10 ? 8 : 2); r++) {
    V p = good(f, t, r), q = good(f, t, r + 3), x = signal(30, 3); P A = mk(f, t, N, s), T = mk(f, t, N, s); std::string nmn = nm(f, t, N, p) + fmt(" structure %d", s); int o = 1 + pick(N); A->setNo(o, p.data()); T->setNo(o, p.data());
    for (int i = 0; i < 10; i++) { A->filter(x[i]); T->filter(x[i]); }
    { P S = mk(f, t, N, s), U = mk(f, t, N, s); S->setNo(o, p.data()); U->setNo(o, p.data()); for (int i = 0; i < 10; i++) { S->filter(x[i]); U->filter(x[i]); } V rs = report(*S); P M(S->moved()); CHECK(same(report(*M), rs), "%s: a filter constructed from an rvalue reports other coefficients, poles/zeros or response", nmn.c_str());
      S->setN(q.data()); S->reset(); CHECK(same(report(*M), rs), "%s: setting up the source changed the filter constructed from it as an rvalue", nmn.c_str()); for (int i = 10; i < 15; i++) { double u = M->filter(x[i]), w = U->filter(x[i]); CHECK(bits(u, w), "%s: filter constructed from an rvalue filters sample %d to %.17g, the source would give %.17g", nmn.c_str(), i, u, w); } S.reset(); M->setN(q.data()); M->setNo(o, p.data()); CHECK(same(report(*M), rs), "%s: setting up a filter constructed from an rvalue", nmn.c_str()); }
    P B(A->copy()); CHECK(same(report(*A), report(*B)), "%s: a copy reports other coefficients, poles/zeros or response", nmn.c_str());
    V ra = report(*A); for (int i = 10; i < 15; i++) { double u = B->filter(x[i]), w = T->filter(x[i]); CHECK(bits(u, w), "%s: copy filters sample %d to %.17g, the source would give %.17g", nmn.c_str(), i, u, w); }
    P C(A->copy()), D(A->copy()); A->setN(q.data()); CHECK(same(report(*C), ra), "%s: setting up the source changed its copy", nmn.c_str()); V rA = report(*A); C->setN(p.data()); CHECK(same(report(*A), rA), "%s: setting up the copy changed the source", nmn.c_str());
    { P E = mk(f, t, N, s); E->setN(p.data()); CHECK(same(report(*C), report(*E)), "%s: setting up a copy differs from a new filter", nmn.c_str()); }
    A->reset(); { P T2 = mk(f, t, N, s); T2->setNo(o, p.data()); for (int i = 0; i < 10; i++) T2->filter(x[i]); for (int i = 10; i < 15; i++) { double u = D->filter(x[i]), w = T2->filter(x[i]); CHECK(bits(u, w), "%s: resetting or designing the source disturbed the state of its copy", nmn.c_str()); } }
    A.reset(); CHECK(same(report(*D), ra), "%s: destroying the source changed its copy", nmn.c_str()); D->setN(q.data()); D->setNo(o, p.data()); CHECK(same(report(*D), ra), "%s: copy cannot be set up after its source is gone", nmn.c_str());
    P G = mk(f, t, N, s), H = mk(f, t, N, s); G->setN(q.data()); H->setNo(o, p.data()); V rg = report(*G), rh = report(*H); for (int i = 0; i < 9; i++) { G->filter(x[i]); H->filter(x[i]); } P K(H->copy()); G->assign(H.get());
    CHECK(same(report(*H), rh), "%s: assigning from a filter changed it", nmn.c_str()); for (int i = 9; i < 14; i++) { double u = H->filter(x[i]), w = K->filter(x[i]); CHECK(bits(u, w), "%s: assigning from a filter changed its delay lines", nmn.c_str()); }
    { P M = mk(f, t, N, s); V cg = report(*G); if (same(cg, rg)) M->setN(q.data()); else M->setNo(o, p.data()); CHECK(same(cg, rg) || same(cg, rh), "%s: assignment leaves neither the old nor the new design", nmn.c_str()); for (int i = 0; i < 5; i++) { double u = G->filter(x[i]), w = M->filter(x[i]); CHECK(bits(u, w), "%s: assignment does not clear the delay lines", nmn.c_str()); } }
    V cg = report(*G); H->setN(good(f, t, r + 5).data()); CHECK(same(report(*G), cg), "%s: setting up the source of an assignment changed the target", nmn.c_str()); H.reset(); CHECK(same(report(*G), cg), "%s: destroying the source of an assignment changed the target", nmn.c_str()); G->setN(p.data()); { P E = mk(f, t, N, s); E->setN(p.data()); CHECK(same(report(*G), report(*E)), "%s: set up after an assignment", nmn.c_str()); }
  }
  { RBJ::LowPass a; a.setupN(0.1); for (int i = 0; i < 5; i++) a.filter(1.0); RBJ::LowPass b(a), c(a); double u = a.filter(0.3); a.setupN(0.3); a.reset(); CHECK(bits(b.filter(0.3), u), "RBJ copy"); }
  { double m[2][6] = {{1, 2, 3, 1, 0.1, 0.2}, {1, 0, 0, 1, 0.4, 0}}, k[2][6] = {{1, 1, 1, 1, 0, 0}, {2, 2, 2, 1, 0, 0}}; Custom::SOSCascade<2> a(m); a.filter(1.0); Custom::SOSCascade<2> b(a), t(m); t.filter(1.0); double u = t.filter(0.4); a.setup(k); a.reset(); CHECK(bits(b.filter(0.4), u), "SOSCascade copy"); } }
// ------------------------------------------------------------------ C25
static void C25(int n) {
#if !defined(__SANITIZE_ADDRESS__)
  each(2, [&](int f, int t, int N, const V& p, int r) { P F = mk(f, t, N, N <= 4 ? r : 1); F->setN(p.data()); double y = 0; V z = coefs(*F); int st = F->num(); std::string s = nm(f, t, N, p); long a = allocs;
    F->setN(p.data()); F->setNo(1, p.data()); CHECK(allocs == a, "%s allocates during setup", s.c_str()); F->setN(p.data());  a = allocs; for (int i = 0; i < 20; i++) { y += F->filter(uni(-1, 1)); y += F->filter(1.5f); y += F->filter(3); } F->reset(); long b = allocs; CHECK(a == b, "%s allocates while filtering", s.c_str());
    for (double x : {NaN, INF, -INF, 1e308, -1e308, 5e-324, 0.0}) { bool e = false; try { F->filter(x); F->filter((float)x); } catch (...) { e = true; } CHECK(!e, "%s filter(%g) throws", s.c_str(), x); } { bool e = false; try { F->reset(); } catch (...) { e = true; } CHECK(!e, "%s reset() throws", s.c_str()); }
    CHECK(same(coefs(*F), z) && F->num() == st, "%s filtering changes the coefficients", s.c_str());
    P G(mk(f, t, N, 1)); a = allocs; G->filter(1.0); G->setN(p.data()); CHECK(allocs == a, "%s allocates", s.c_str()); (void)y; });
  { bool e = false; Butterworth::LowShelf<2> f; f.setupN(0.1, 20); RBJ::LowShelf g; g.setupN(0.1, 20); Custom::SOSCascade<2> c; try { for (int i = 0; i < 200; i++) { f.filter((short)30000); f.filter((unsigned char)250); f.filter(2000000000); f.filter(3e38f); g.filter((short)-30000); g.filter(2000000000); g.filter(3e38f); c.filter((short)32767); } } catch (...) { e = true; } CHECK(!e, "a shelf with 20 dB at 0.1 throws for integer or float samples close to the end of their range (%d)", (int)e); }
  for (auto& r : rbjtab()) { V p = rbjgood(r, 1); Biquad b; long a = allocs; r.N(b, p); CHECK(allocs == a, "RBJ::%s allocates during setup", r.n); }
  long a = allocs; { Butterworth::LowPass<4> l; l.setup(1000, 100); l.filter(1.0); ChebyshevI::BandPass<3, DirectFormI> b; b.setup(1000, 200, 50, 1); ChebyshevII::BandShelf<3> c; c.setup(1000, 200, 50, 6, 1); Custom::SOSCascade<3> s; s.filter(1.0); RBJ::LowPass q; q.setup(1000, 10); } CHECK(allocs == a, "construction and destruction allocate");
#endif
  rbjs(1, 3); }
// ------------------------------------------------------------------ C26
static void C26(int n) { laws(n, BW, false); laws(n, C1, false); laws(n, C2, false);
  // poles and zeros far away and close to the origin
  for (int k = 0; k < 100 * n; k++) { std::vector<PoleZeroPair> sa(2), sd(4); LayoutBase a(1, sa.data()), d(2, sd.data()), e(1, sd.data()); double m = std::exp(uni(std::log(1e-5), std::log(1e6))), mz = -std::exp(uni(std::log(1e-5), std::log(1e6))); a.add(-m, k % 2 ? complex_t(mz) : infinity()); a.setNormal(0, 1);
    double fc = uni(0.05, 0.45), fw = uni(0.02, 2 * std::min(fc, 0.5 - fc) - 0.01), t1 = std::tan(PI * (fc - fw / 2)), t2 = std::tan(PI * (fc + fw / 2)), c = std::tan(PI * fc);
    for (int kind = 0; kind < 4; kind++) { if (kind == 0) LowPassTransform(fc, e, a); else if (kind == 1) HighPassTransform(fc, e, a); else if (kind == 2) BandPassTransform(fc, fw, d, a); else BandStopTransform(fc, fw, d, a); static const char* K[] = {"low-pass", "high-pass", "band-pass", "band-stop"};
      std::string s = fmt("%s transform fc=%.17g%s of the pole %.17g, zero %.17g", K[kind], fc, kind > 1 ? fmt(" fw=%.17g", fw).c_str() : "", -m, k % 2 ? mz : INF);
      CL P[2], Z[2]; int cnt = kind > 1 ? 2 : 1; auto im = [&](double w, CL* o) { if (kind == 0) { o[0] = ((L)1 + (L)w * c) / ((L)1 - (L)w * c); return; } if (kind == 1) { o[0] = std::isinf(w) ? (L)1 : ((L)w + (L)c) / ((L)w - (L)c); return; }
        L W = kind == 3 ? 1 / (L)w : (L)w, B = W * ((L)t2 - t1), C = (L)t1 * t2; CL D = std::sqrt(CL(B * B - 4 * C)); CL q1 = B < 0 ? (CL(B) - D) / (L)2 : (CL(B) + D) / (L)2, q2 = q1 == CL(0) ? CL(0) : C / q1; if (B == 0) q1 = CL(0, std::sqrt(C)), q2 = -q1; o[0] = ((L)1 + q1) / ((L)1 - q1); o[1] = ((L)1 + q2) / ((L)1 - q2); };
      im(-m, P); if (k % 2) im(mz, Z); else if (kind == 3) im(INF, Z); else { Z[0] = kind == 1 ? 1 : -1; Z[1] = 1; }
      auto& X = kind > 1 ? d[0] : e[0]; complex_t gp[2] = {X.poles.first, X.poles.second}, gz[2] = {X.zeros.first, X.zeros.second}; auto ok = [&](CL w, complex_t* g, bool one) { for (int i = 0; i < cnt; i++) { L dd = std::min({(L)1, std::abs((L)1 - w), std::abs((L)1 + w)}); if (std::abs(CL(g[i]) - w) < 1e-9L * dd + (kind > 1 ? 1e-11L : 1e-13L)) return true; } return false; };
      for (int i = 0; i < cnt; i++) { CHECK(ok(P[i], gp, true), "%s: no pole at (%.17Lg, %.17Lg)", s.c_str(), P[i].real(), P[i].imag()); CHECK(ok(Z[i], gz, false), "%s: no zero at (%.17Lg, %.17Lg)", s.c_str(), Z[i].real(), Z[i].imag()); CHECK(std::abs(gp[i]) < 1, "%s: pole of modulus %.17g", s.c_str(), std::abs(gp[i])); } } }
  auto unitz = [](complex_t z, complex_t w) { double d = std::min({1.0, std::abs(1.0 - w), std::abs(1.0 + w)}); return std::abs(z - w) < 1e-9 * d + 1e-13; };
  for (int k = 0; k < 40 * n; k++) { int np = 1 + k % 6; double fc = k < 4 ? 0.1 + 0.1 * k : uni(0.02, 0.48), fw = uni(0.01, 2 * std::min(fc, 0.5 - fc) - 0.002); if (fw < 0.005) fw = 0.005; bool zinf = k % 3 != 1; std::vector<PoleZeroPair> sa(10), sd(20); 
    struct { int n; complex_t p[6], z[6]; } A; LayoutBase a(np, sa.data());
    for (int i = 0; i < np / 2; i++) { A.p[i] = complex_t(-uni(0.05, 1.5), uni(0.1, 2)); A.z[i] = zinf ? infinity() : k % 2 ? complex_t(0, uni(0.3, 3)) : complex_t(-uni(0.1, 2), uni(0.1, 2)); a.addPoleZeroConjugatePairs(A.p[i], A.z[i]); }
    double rp = -uni(0.1, 2), rz = -uni(0.1, 2); bool rinf = k % 2; if (np % 2) { a.add(rp, rinf ? infinity() : complex_t(rz)); }
    a.setNormal(0, 1);
    double fl = fc; switch (k % 7) { case 2: fl = std::exp(uni(std::log(2e-4), std::log(0.02))); break; case 3: fl = 0.5 - std::exp(uni(std::log(2e-4), std::log(0.02))); break; case 4: fl = uni(1e-4, 0.4999); break; }
    double c = std::tan(PI * fl); auto lp = [&](complex_t s, bool hp) { if (std::isinf(s.real())) return complex_t(hp ? 1 : -1); complex_t q = s; return hp ? (c == 0 ? complex_t(1) : (1.0 + c / q) / (1.0 - c / q)) : (1.0 + q * c) / (1.0 - q * c); };
    for (int hp = 0; hp < 2; hp++) { LayoutBase d(np, sd.data()); d.reset(); if (hp) HighPassTransform(fl, d, a); else LowPassTransform(fl, d, a); std::string s = fmt("%s transform fc=%.17g case %d", hp ? "high-pass" : "low-pass", fl, k); CHECK(d.getNumPoles() == np, "%s: %d poles of %d", s.c_str(), d.getNumPoles(), np);
      for (int i = 0; i < (np + 1) / 2 && i < (d.getNumPoles() + 1) / 2; i++) { bool real = i == np / 2; complex_t p = real ? complex_t(rp) : A.p[i], z = real ? (rinf ? infinity() : complex_t(rz)) : A.z[i]; auto& D = d[i]; complex_t P = lp(p, hp), Z = lp(z, hp); double sgn = hp ? 1 : 1; (void)sgn;
        auto pr = [&](complex_t x, complex_t y, complex_t w) { return (unitz(x, w) && (real || unitz(y, std::conj(w)))) || (!real && unitz(y, w) && unitz(x, std::conj(w))); };
        CHECK(pr(D.poles.first, D.poles.second, P), "%s: pole (%.12g,%.12g), image (%.12g,%.12g)", s.c_str(), D.poles.first.real(), D.poles.first.imag(), P.real(), P.imag()); CHECK(pr(D.zeros.first, D.zeros.second, Z), "%s: zero (%.12g,%.12g), image (%.12g,%.12g)", s.c_str(), D.zeros.first.real(), D.zeros.first.imag(), Z.real(), Z.imag()); CHECK(std::abs(D.poles.first) < 1, "%s: pole outside of the unit circle", s.c_str()); } }
    double t1 = std::tan(PI * (fc - fw / 2)), t2 = std::tan(PI * (fc + fw / 2));
    for (int bs = 0; bs < 2; bs++) { LayoutBase d(2 * np, sd.data()); d.reset(); bool e = throws([&] { if (bs) BandStopTransform(fc, fw, d, a); else BandPassTransform(fc, fw, d, a); }); std::string s = fmt("%s transform fc=%.17g fw=%.17g case %d", bs ? "band-stop" : "band-pass", fc, fw, k); CHECK(!e, "%s throws", s.c_str()); if (e) continue; CHECK(d.getNumPoles() == 2 * np, "%s: %d poles", s.c_str(), d.getNumPoles());
      V got; std::vector<complex_t> gp, gz; for (int i = 0; i < (d.getNumPoles() + 1) / 2; i++) { gp.push_back(d[i].poles.first); gp.push_back(d[i].poles.second); gz.push_back(d[i].zeros.first); gz.push_back(d[i].zeros.second); }
      auto back = [&](complex_t z) { complex_t q = (z - 1.0) / (z + 1.0); complex_t w = (q * q + t1 * t2) / (q * (t2 - t1)); return bs ? 1.0 / w : w; };
      for (int i = 0; i < (int)gp.size(); i++) { CHECK(std::abs(gp[i]) < 1, "%s: pole outside of the unit circle", s.c_str()); complex_t w = back(gp[i]); double best = 1e9; for (int j = 0; j < np / 2; j++) best = std::min({best, std::abs(w - A.p[j]), std::abs(w - std::conj(A.p[j]))}); if (np % 2) best = std::min(best, std::abs(w - rp)); CHECK(best < 1e-5, "%s: pole (%.12g,%.12g) is no image of an analogue pole", s.c_str(), gp[i].real(), gp[i].imag());
        complex_t conj = std::conj(gp[i]); double bc = 1e9; for (auto& o : gp) bc = std::min(bc, std::abs(o - conj)); CHECK(bc < 1e-9, "%s: poles not in conjugate pairs", s.c_str()); } 
      for (auto z : gz) { CHECK(!std::isnan(z.real()), "%s: zero NaN", s.c_str()); bool pt = bs ? std::abs(back(z)) > 1e4 || std::abs(std::abs(z) - 1) < 1e-6 && std::abs(std::arg(z)) > 0 && std::abs(std::tan(std::fabs(std::arg(z)) / 2) - std::sqrt(t1 * t2)) < 1e-5 : std::abs(z - 1.0) < 1e-9 || std::abs(z + 1.0) < 1e-9; if (pt) continue; complex_t w = back(z); double best = 1e9; for (int j = 0; j < np / 2; j++) if (!zinf) best = std::min({best, std::abs(w - A.z[j]), std::abs(w - std::conj(A.z[j]))}); if (np % 2 && !rinf) best = std::min(best, std::abs(w - rz)); CHECK(best < 1e-5, "%s: zero (%.12g,%.12g) is no image of an analogue zero", s.c_str(), z.real(), z.imag()); } } } }
int main(int c, char** v) {
  for (int i = 4; i < c; i++) { double x = atof(v[i]); if (x == x && x != 0) pool.push_back(x); }
  std::string p = v[1]; rng.seed(atoi(v[2])); int n = atoi(v[3]);
  struct { const char* id; void (*f)(int); } tab[] = {{"C01", C01}, {"C02", C02}, {"C03", C03}, {"C04", C04}, {"C05", C05}, {"C06", C06}, {"C07", C07}, {"C08", C08}, {"C09", C09}, {"C10", C10}, {"C11", C11}, {"C12", C12}, {"C13", C13}, {"C14", C14}, {"C15", C15}, {"C16", C16}, {"C17", C17}, {"C18", C18}, {"C19", C19}, {"C20", C20}, {"C21", C21}, {"C22", C22}, {"C23", C23}, {"C24", C24}, {"C25", C25}, {"C26", C26}};
  for (auto& t : tab) if (p == t.id) { try { t.f(n); } catch (const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); } }
  printf("%ld cases, %d failures\n", cases, failures);
  return failures ? 1 : 0;
}
