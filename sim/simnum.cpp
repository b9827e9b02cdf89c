#include "simnum.hpp"
#include "engine.hpp"
#include <mpfr.h>
#include <cstdio>
#include <cstring>
#include <link.h>

namespace dst {
Toy toy;
typedef unsigned __int128 u128;
typedef __int128 i128;

// Objects with static or thread storage duration (a constant the library keeps)
// are not part of the balance of a call.
extern "C" char __data_start, _end;
static size_t tlsSize() {
  static size_t n = [] {
    size_t r = 0;
    dl_iterate_phdr([](dl_phdr_info *i, size_t, void *p) {
      for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) *(size_t *)p = i->dlpi_phdr[k].p_memsz + i->dlpi_phdr[k].p_align;
      return 1;                         // the executable comes first
    }, &r);
    return r; }();
  return n;
}
static size_t tlsBytes = tlsSize();
static inline bool kept(const void *o) {
  const char *c = (const char *)o, *tp = (const char *)__builtin_thread_pointer();
  return (c >= &__data_start && c < &_end) || (c < tp && c >= tp - tlsBytes);
}
static inline uint64_t alive(const void *o) { return (uint64_t)(uintptr_t)o * 0x9e3779b97f4a7c15ull ^ 0x5bd1e995c0ffee11ull; }
// An object that is used must live: every use by the library is checked, whatever it is used for.
template<class N> static inline void use(const N *o) {
  if (__builtin_expect(*(volatile const uint64_t *)&o->tag != alive(o), 0) && tc && tc->fr && tc->inLib) ++tc->fr->dead;
}
template<class N> static inline void rd(const N *o) { use(o); if (raceOn) access(o, sizeof *o, false); }
template<class N> static inline void wr(const N *o) { use(o); if (raceOn) access(o, sizeof *o, true); }
template<class N> static inline void born(N *o) { if (raceOn) access(o, sizeof *o, true); *(volatile uint64_t *)&o->tag = alive(o); if (tc && !kept(o)) ++tc->live; }
template<class N> static inline void died(N *o) { wr(o); *(volatile uint64_t *)&o->tag = 0; if (tc && !kept(o)) --tc->live; }

// ------------------------------------------------------------ exact decomposition and rounding
struct XP { bool neg; u128 m; long e; bool sticky; };   // |x| = m*2^e (+ something below one unit if sticky)

static XP dec(long double x) {
  XP r{std::signbit(x), 0, 0, false};
  if (x == 0) return r;
  int e; long double f = frexpl(fabsl(x), &e);
  r.m = (u128)(uint64_t)ldexpl(f, 64); r.e = e - 64;
  while (!(r.m & 1)) { r.m >>= 1; ++r.e; }
  return r;
}
static int blen(u128 m) { int n = 0; if (m >> 64) { n = 64; m >>= 64; } uint64_t h = (uint64_t)m; return h ? n + 64 - __builtin_clzll(h) : n; }

static long double rnd(XP x, int prec, long emin, long emax, int mode) {
  if (!x.m && !x.sticky) return x.neg ? -0.0L : 0.0L;
  if (x.sticky) { // make room so that the sticky part lies below the kept bits
    if (!x.m) { x.m = 1; x.e -= 60; x.sticky = true; }
    int room = 126 - blen(x.m); if (room > 40) room = 40;
    x.m <<= room; x.e -= room;
  }
  long E = x.e + blen(x.m) - 1;
  long qe = E - (prec - 1);
  if (qe < emin - (prec - 1)) qe = emin - (prec - 1);
  u128 q; bool inexact, half = false, above = false;
  long s = qe - x.e;
  if (s <= 0) { q = x.m << (-s); inexact = x.sticky; }   // -s small by construction
  else {
    u128 rem;
    if (s >= 127) { q = 0; inexact = true; }
    else {
      q = x.m >> s; rem = x.m & (((u128)1 << s) - 1);
      u128 h = (u128)1 << (s - 1);
      inexact = rem != 0 || x.sticky;
      half = rem == h && !x.sticky; above = rem > h || (rem == h && x.sticky);
    }
  }
  bool up = false;
  switch (mode) {
    case RN: up = above || (half && (q & 1)); break;
    case RD: up = x.neg && inexact; break;
    case RU: up = !x.neg && inexact; break;
    default: break;
  }
  if (up) ++q;
  long double r;
  if (q == 0) r = 0;
  else {
    long ER = qe + blen(q) - 1;
    if (ER > emax) {
      bool toInf = mode == RN || (mode == RD && x.neg) || (mode == RU && !x.neg);
      if (toInf) r = INFINITY;
      else r = ldexpl((long double)(((u128)1 << prec) - 1), emax - prec + 1);
    } else r = ldexpl((long double)(uint64_t)q, qe);
  }
  return x.neg ? -r : r;
}
// result of an operation: extended when the run has extended intermediates
static long double rop(const XP &x) {
  if (toy.ext) return rnd(x, toy.p + toy.ext, toy.emin - toy.ext, toy.emax + toy.ext, simMode);
  return rnd(x, toy.p, toy.emin, toy.emax, simMode);
}
static long double rfmt(long double v, int mode) {
  if (v != v || std::isinf(v) || v == 0) return v;
  return rnd(dec(v), toy.p, toy.emin, toy.emax, mode);
}
long double roundToy(long double x, int mode) { return rfmt(x, mode); }

static bool fin(long double a) { return std::isfinite(a); }
static long double xadd(long double a, long double b) {
  if (!fin(a) || !fin(b)) return a + b;
  if (a == 0 && b == 0) { if (std::signbit(a) == std::signbit(b)) return a; return simMode == RD ? -0.0L : 0.0L; }
  if (a == 0) return rop(dec(b));
  if (b == 0) return rop(dec(a));
  XP x = dec(a), y = dec(b);
  if (x.e < y.e) std::swap(x, y);
  if (x.e - y.e > 100) {   // cannot happen within the configured exponent ranges
    harnessFail("toy exponent range too large");
  }
  i128 A = (i128)(x.m << (x.e - y.e)), B = (i128)y.m;
  if (x.neg) A = -A;
  if (y.neg) B = -B;
  i128 S = A + B;
  if (S == 0) return simMode == RD ? -0.0L : 0.0L;
  XP r{S < 0, (u128)(S < 0 ? -S : S), y.e, false};
  return rop(r);
}
static long double xmul(long double a, long double b) {
  if (!fin(a) || !fin(b) || a == 0 || b == 0) return a * b;
  XP x = dec(a), y = dec(b);
  XP r{x.neg != y.neg, x.m * y.m, x.e + y.e, false};
  return rop(r);
}
static long double xdiv(long double a, long double b) {
  if (!fin(a) || !fin(b) || a == 0 || b == 0) return a / b;
  XP x = dec(a), y = dec(b);
  u128 N = x.m << 60; u128 q = N / y.m; bool st = N % y.m != 0;
  XP r{x.neg != y.neg, q, x.e - 60 - y.e, st};
  return rop(r);
}
static long double xsqrt(long double a) {
  if (a != a || a == 0) return a;
  if (a < 0) return NAN;
  if (!fin(a)) return a;
  XP x = dec(a);
  int sh = 100 - blen(x.m); if ((x.e - sh) & 1) --sh;
  u128 N = x.m << sh; long e = x.e - sh;
  u128 lo = 0, hi = (u128)1 << 52;
  while (hi - lo > 1) { u128 mid = (lo + hi) / 2; if (mid * mid <= N) lo = mid; else hi = mid; }
  XP r{false, lo, e / 2, lo * lo != N};
  return rop(r);
}
typedef int (*mfun)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
static long double xlib(mfun f, long double a) {
  mpfr_t x, y; mpfr_init2(x, 64); mpfr_init2(y, 64);
  mpfr_set_ld(x, a, MPFR_RNDN);
  int t = f(y, x, MPFR_RNDZ);
  long double r;
  if (mpfr_nan_p(y)) r = NAN;
  else if (mpfr_inf_p(y)) r = mpfr_sgn(y) < 0 ? -INFINITY : INFINITY;
  else if (mpfr_zero_p(y)) r = mpfr_signbit(y) ? -0.0L : 0.0L;
  else {
    mpz_t z; mpz_init(z);
    long e = mpfr_get_z_2exp(z, y);
    XP p{mpfr_sgn(y) < 0, 0, e, t != 0};
    mpz_abs(z, z);
    uint64_t m = 0; size_t cnt; mpz_export(&m, &cnt, -1, 8, 0, 0, z);
    p.m = m; mpz_clear(z);
    while (p.m && !(p.m & 1)) { p.m >>= 1; ++p.e; }
    r = rop(p);
  }
  mpfr_clear(x); mpfr_clear(y);
  return r;
}

// ------------------------------------------------------------ SimNum
SimNum::SimNum() { point(P_COPY); v = 0; born(this); }
SimNum::SimNum(const SimNum &o) { rd(&o); point(P_COPY); v = o.v; born(this); }
SimNum &SimNum::operator=(const SimNum &o) { wr(this); rd(&o); point(P_ASSIGN); v = o.v; return *this; }
SimNum::~SimNum() { died(this); }
SimNum::SimNum(Raw, long double x) { v = x; born(this); }
static long double convI(long double x) { if (x == 0) return 0; return rop(dec(x)); }
static long double convF(long double x) { if (x != x || std::isinf(x) || x == 0) return x; return rop(dec(x)); }
SimNum::SimNum(int x) { point(P_ARITH); v = convI(x); born(this); }
SimNum::SimNum(unsigned x) { point(P_ARITH); v = convI(x); born(this); }
SimNum::SimNum(long x) { point(P_ARITH); v = convI(x); born(this); }
SimNum::SimNum(long long x) { point(P_ARITH); v = convI(x); born(this); }
SimNum::SimNum(unsigned long x) { point(P_ARITH); v = convI(x); born(this); }
SimNum::SimNum(float x) { point(P_ARITH); v = convF(x); born(this); }
SimNum::SimNum(double x) { point(P_ARITH); v = convF(x); born(this); }
SimNum::SimNum(long double x) { point(P_ARITH); v = convF(x); born(this); }
static SimNum raw(long double x) { return SimNum(SimNum::Raw(), x); }
const SimNum &SimNum::operator+() const { rd(this); return *this; }
SimNum SimNum::operator-() const { rd(this); point(P_ARITH); return raw(-v); }
SimNum operator+(const SimNum &a, const SimNum &b) { rd(&a); rd(&b); point(P_ARITH); return raw(xadd(a.v, b.v)); }
SimNum operator-(const SimNum &a, const SimNum &b) { rd(&a); rd(&b); point(P_ARITH); return raw(xadd(a.v, -b.v)); }
SimNum operator*(const SimNum &a, const SimNum &b) { rd(&a); rd(&b); point(P_ARITH); return raw(xmul(a.v, b.v)); }
SimNum operator/(const SimNum &a, const SimNum &b) { rd(&a); rd(&b); point(P_ARITH); return raw(xdiv(a.v, b.v)); }
SimNum &SimNum::operator+=(const SimNum &b) { wr(this); rd(&b); point(P_ARITH);  v = xadd(v, b.v); return *this; }
SimNum &SimNum::operator-=(const SimNum &b) { wr(this); rd(&b); point(P_ARITH);  v = xadd(v, -b.v); return *this; }
SimNum &SimNum::operator*=(const SimNum &b) { wr(this); rd(&b); point(P_ARITH);  v = xmul(v, b.v); return *this; }
SimNum &SimNum::operator/=(const SimNum &b) { wr(this); rd(&b); point(P_ARITH);  v = xdiv(v, b.v); return *this; }
bool operator<(const SimNum &a, const SimNum &b) { rd(&a); rd(&b); point(P_ARITH); return a.v < b.v; }
bool operator>(const SimNum &a, const SimNum &b) { rd(&a); rd(&b); point(P_ARITH); return a.v > b.v; }
bool operator<=(const SimNum &a, const SimNum &b) { rd(&a); rd(&b); point(P_ARITH); return a.v <= b.v; }
bool operator>=(const SimNum &a, const SimNum &b) { rd(&a); rd(&b); point(P_ARITH); return a.v >= b.v; }
bool operator==(const SimNum &a, const SimNum &b) { rd(&a); rd(&b); point(P_ARITH); return a.v == b.v; }
bool operator!=(const SimNum &a, const SimNum &b) { rd(&a); rd(&b); point(P_ARITH); return a.v != b.v; }
SimNum sqrt(const SimNum &a) { rd(&a); point(P_ARITH); return raw(xsqrt(a.v)); }
#define F(f) SimNum f(const SimNum &a) { rd(&a); point(P_ARITH); return raw(xlib(mpfr_##f, a.v)); }
F(exp) F(log) F(sin) F(cos) F(tan) F(asin) F(acos) F(atan) F(sinh) F(cosh) F(tanh) F(asinh) F(acosh) F(atanh)
#undef F
SimNum floor(const SimNum &a) { rd(&a); point(P_ARITH); return raw(floorl(a.v)); }
SimNum ceil(const SimNum &a) { rd(&a); point(P_ARITH); return raw(ceill(a.v)); }

std::string simText(long double v) {
  char b[64];
  if (v != v) return "nan";
  if (std::isinf(v)) return v < 0 ? "-inf" : "inf";
  snprintf(b, sizeof b, "%.10Lg", v);
  return b;
}
std::ostream &operator<<(std::ostream &o, const SimNum &a) { rd(&a); point(P_ARITH); return o << simText(a.v); }
std::wostream &operator<<(std::wostream &o, const SimNum &a) { rd(&a); point(P_ARITH); std::string s = simText(a.v); return o << std::wstring(s.begin(), s.end()); }

void SimFpu::get_rounding_mode(rounding_mode &m) { point(P_MODE); m = simMode; }
void SimFpu::set_rounding_mode(rounding_mode m) { point(P_MODE); if (m < 0 || m > 3) m &= 3; simMode = m; }
void SimFpu::upward() { point(P_MODE); simMode = RU; }
void SimFpu::downward() { point(P_MODE); simMode = RD; }
void SimFpu::to_nearest() { point(P_MODE); simMode = RN; }
void SimFpu::toward_zero() { point(P_MODE); simMode = RZ; }
SimNum SimFpu::to_int(const SimNum &a) {
  rd(&a);
  point(P_ARITH);
  long double v = a.v;
  if (v != v || std::isinf(v) || v == 0) return raw(v);
  long double r;
  switch (simMode) {
    case RD: r = floorl(v); break;
    case RU: r = ceill(v); break;
    case RZ: r = truncl(v); break;
    default: { r = floorl(v); long double d = v - r; if (d > 0.5L || (d == 0.5L && fmodl(r, 2) != 0)) r += 1; }
  }
  if (r == 0 && v < 0) r = -0.0L;
  return raw(rfmt(r, simMode));
}
SimNum SimFpu::force_rounding(const SimNum &a) { rd(&a); point(P_ARITH); return raw(rfmt(a.v, simMode)); }

SimNum simPi(int which, bool up) {
  point(P_ARITH);
  if (!toy.pimode) {
    static const int lo[3] = {3, 1, 6}, hi[3] = {4, 2, 7};
    return raw(rfmt(up ? hi[which] : lo[which], up ? RU : RD));
  }
  mpfr_t x; mpfr_init2(x, 64); mpfr_const_pi(x, MPFR_RNDZ);
  if (which == 1) mpfr_div_2ui(x, x, 1, MPFR_RNDN);
  if (which == 2) mpfr_mul_2ui(x, x, 1, MPFR_RNDN);
  long double p = mpfr_get_ld(x, MPFR_RNDZ); mpfr_clear(x);
  return raw(rfmt(p, up ? RU : RD));   // p has 64 bits, far more than the toy format, and is not representable in it
}

// ------------------------------------------------------------ SimRat
static void setRat(SimRat &r, i128 n, i128 d) {
  if (d == 0) throw NaturalOverflow();
  if (d < 0) { n = -n; d = -d; }
  i128 a = n < 0 ? -n : n, b = d;
  while (b) { i128 t = a % b; a = b; b = t; }
  if (a > 1) { n /= a; d /= a; }
  const i128 lim = (i128)1 << 61;
  if (n > lim || n < -lim || d > lim) throw NaturalOverflow();
  r.n = (int64_t)n; r.d = (int64_t)d;
}
SimRat::SimRat() : n(0), d(1) { point(P_COPY); born(this); }
SimRat::SimRat(const SimRat &o) { rd(&o); point(P_COPY); n = o.n; d = o.d; born(this); }
SimRat &SimRat::operator=(const SimRat &o) { wr(this); rd(&o); point(P_ASSIGN); n = o.n; d = o.d; return *this; }
SimRat::~SimRat() { died(this); }
SimRat::SimRat(Raw, int64_t a, int64_t b) : n(a), d(b) { born(this); }
SimRat::SimRat(int x) { point(P_ARITH); n = x; d = 1; born(this); }
SimRat::SimRat(unsigned x) { point(P_ARITH); n = x; d = 1; born(this); }
SimRat::SimRat(long x) { point(P_ARITH); SimRat t(Raw(), 0, 1); setRat(t, x, 1); n = t.n; d = t.d; born(this); }
SimRat::SimRat(long long x) { point(P_ARITH); SimRat t(Raw(), 0, 1); setRat(t, x, 1); n = t.n; d = t.d; born(this); }
SimRat::SimRat(unsigned long x) { point(P_ARITH); SimRat t(Raw(), 0, 1); setRat(t, x, 1); n = t.n; d = t.d; born(this); }
static SimRat rr(i128 n, i128 d) { SimRat r(SimRat::Raw(), 0, 1); setRat(r, n, d); return r; }
SimRat SimRat::operator-() const { rd(this); point(P_ARITH); return rr(-(i128)n, d); }
const SimRat &SimRat::operator+() const { rd(this); return *this; }
SimRat operator+(const SimRat &a, const SimRat &b) { rd(&a); rd(&b); point(P_ARITH); return rr((i128)a.n * b.d + (i128)b.n * a.d, (i128)a.d * b.d); }
SimRat operator-(const SimRat &a, const SimRat &b) { rd(&a); rd(&b); point(P_ARITH); return rr((i128)a.n * b.d - (i128)b.n * a.d, (i128)a.d * b.d); }
SimRat operator*(const SimRat &a, const SimRat &b) { rd(&a); rd(&b); point(P_ARITH); return rr((i128)a.n * b.n, (i128)a.d * b.d); }
SimRat operator/(const SimRat &a, const SimRat &b) { rd(&a); rd(&b); point(P_ARITH); return rr((i128)a.n * b.d, (i128)a.d * b.n); }
SimRat &SimRat::operator+=(const SimRat &b) { wr(this); rd(&b); point(P_ARITH); setRat(*this, (i128)n * b.d + (i128)b.n * d, (i128)d * b.d); return *this; }
SimRat &SimRat::operator-=(const SimRat &b) { wr(this); rd(&b); point(P_ARITH); setRat(*this, (i128)n * b.d - (i128)b.n * d, (i128)d * b.d); return *this; }
SimRat &SimRat::operator*=(const SimRat &b) { wr(this); rd(&b); point(P_ARITH); setRat(*this, (i128)n * b.n, (i128)d * b.d); return *this; }
SimRat &SimRat::operator/=(const SimRat &b) { wr(this); rd(&b); point(P_ARITH); setRat(*this, (i128)n * b.d, (i128)d * b.n); return *this; }
static int cmp(const SimRat &a, const SimRat &b) { i128 l = (i128)a.n * b.d, r = (i128)b.n * a.d; return l < r ? -1 : l > r; }
bool operator<(const SimRat &a, const SimRat &b) { rd(&a); rd(&b); point(P_ARITH); return cmp(a, b) < 0; }
bool operator>(const SimRat &a, const SimRat &b) { rd(&a); rd(&b); point(P_ARITH); return cmp(a, b) > 0; }
bool operator<=(const SimRat &a, const SimRat &b) { rd(&a); rd(&b); point(P_ARITH); return cmp(a, b) <= 0; }
bool operator>=(const SimRat &a, const SimRat &b) { rd(&a); rd(&b); point(P_ARITH); return cmp(a, b) >= 0; }
bool operator==(const SimRat &a, const SimRat &b) { rd(&a); rd(&b); point(P_ARITH); return cmp(a, b) == 0; }
bool operator!=(const SimRat &a, const SimRat &b) { rd(&a); rd(&b); point(P_ARITH); return cmp(a, b) != 0; }
static SimRat rlib(mfun f, const SimRat &a) {
  mpfr_t x, y; mpfr_init2(x, 200); mpfr_init2(y, 200);
  mpfr_set_si(x, a.n, MPFR_RNDN); mpfr_div_si(x, x, a.d, MPFR_RNDN);
  f(y, x, MPFR_RNDN);
  mpfr_mul_2ui(y, y, 30, MPFR_RNDN);
  bool ok = mpfr_number_p(y) && mpfr_cmp_si_2exp(y, 1, 61) < 0 && mpfr_cmp_si_2exp(y, -1, 61) > 0;
  long n = ok ? mpfr_get_si(y, MPFR_RNDN) : 0;
  mpfr_clear(x); mpfr_clear(y);
  if (!ok) throw NaturalOverflow();
  return rr(n, (i128)1 << 30);
}
#define F(f) SimRat f(const SimRat &a) { rd(&a); point(P_ARITH); return rlib(mpfr_##f, a); }
F(exp) F(log) F(sin) F(cos) F(tan) F(asin) F(acos) F(atan) F(sinh) F(cosh) F(tanh) F(asinh) F(acosh) F(atanh)
#undef F
SimRat ratPi(int which, bool up) {
  point(P_ARITH);
  int64_t n = up ? 355 : 333, d = up ? 113 : 106;
  return rr(which == 2 ? 2 * n : n, which == 1 ? 2 * d : d);
}
SimRat floor(const SimRat &a) { rd(&a); point(P_ARITH); int64_t q = a.n / a.d; if (a.n % a.d < 0) --q; return rr(q, 1); }
SimRat ceil(const SimRat &a) { rd(&a); point(P_ARITH); int64_t q = a.n / a.d; if (a.n % a.d > 0) ++q; return rr(q, 1); }
std::string ratText(int64_t n, int64_t d) {
  char b[64];
  if (d == 1) snprintf(b, sizeof b, "%lld", (long long)n); else snprintf(b, sizeof b, "%lld/%lld", (long long)n, (long long)d);
  return b;
}
std::ostream &operator<<(std::ostream &o, const SimRat &a) { rd(&a); point(P_ARITH); return o << ratText(a.n, a.d); }
std::wostream &operator<<(std::wostream &o, const SimRat &a) { rd(&a); point(P_ARITH); std::string s = ratText(a.n, a.d); return o << std::wstring(s.begin(), s.end()); }
} // namespace dst

namespace std {
using dst::SimNum; using dst::SimRat; using dst::toy;
static SimNum rw(long double x) { dst::point(dst::P_COPY); return SimNum(SimNum::Raw(), x); }
typedef numeric_limits<dst::SimNum> LS;
SimNum LS::min() { return rw(ldexpl(1, toy.emin)); }
SimNum LS::max() { return rw(ldexpl((1 << toy.p) - 1, toy.emax - toy.p + 1)); }
SimNum LS::lowest() { return rw(-ldexpl((1 << toy.p) - 1, toy.emax - toy.p + 1)); }
SimNum LS::epsilon() { return rw(ldexpl(1, 1 - toy.p)); }
SimNum LS::round_error() { return rw(1); }
SimNum LS::infinity() { return rw(INFINITY); }
SimNum LS::quiet_NaN() { return rw(NAN); }
SimNum LS::signaling_NaN() { return rw(NAN); }
SimNum LS::denorm_min() { return rw(ldexpl(1, toy.emin - toy.p + 1)); }
static SimRat rq(int64_t n) { dst::point(dst::P_COPY); return SimRat(SimRat::Raw(), n, 1); }
typedef numeric_limits<dst::SimRat> LR;
SimRat LR::min() { return rq(-((int64_t)1 << 61)); }
SimRat LR::max() { return rq((int64_t)1 << 61); }
SimRat LR::lowest() { return min(); }
SimRat LR::epsilon() { return rq(0); }
SimRat LR::round_error() { return rq(0); }
SimRat LR::infinity() { return rq(0); }
SimRat LR::quiet_NaN() { return rq(0); }
SimRat LR::signaling_NaN() { return rq(0); }
SimRat LR::denorm_min() { return rq(0); }
}
