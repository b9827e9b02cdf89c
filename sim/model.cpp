#include "model.hpp"
#include <gmpxx.h>
#include <mpfr.h>
#include <cstdio>
#include <cstring>
#include <algorithm>

namespace dst {

// ------------------------------------------------------------ extended rationals
struct XR { int k = 0; mpq_class q; };     // k: 0 finite, +1/-1 infinite, 2 NaN
static XR xinf(int s) { XR r; r.k = s; return r; }
static XR xi(long v) { XR r; r.q = v; return r; }
static XR fromNum(const Fmt &f, const NumV &v) {
  XR r;
  if (f.rat) { r.q = mpq_class(mpz_class((long)v.n), mpz_class((long)v.d)); return r; }
  if (v.f != v.f) { r.k = 2; return r; }
  if (std::isinf(v.f)) { r.k = v.f < 0 ? -1 : 1; return r; }
  if (v.f == 0) return r;
  int e; long double m = frexpl(v.f, &e);
  long long im = (long long)ldexpl(fabsl(m), 63); // 64-bit mantissas need two halves
  long double rest = ldexpl(fabsl(m), 64) - 2.0L * (long double)im;
  mpz_class z = mpz_class((long)im) * 2 + (long)rest;
  e -= 64;
  if (v.f < 0) z = -z;
  if (e >= 0) { z <<= e; r.q = z; }
  else { mpz_class d = 1; d <<= -e; r.q = mpq_class(z, d); r.q.canonicalize(); }
  return r;
}
static int sgnX(const XR &a) { return a.k ? a.k : sgn(a.q); }
static int cmpX(const XR &a, const XR &b) {
  if (a.k == b.k && a.k) return 0;
  if (a.k == 1 || b.k == -1) return 1;
  if (a.k == -1 || b.k == 1) return -1;
  return cmp(a.q, b.q);
}
static XR negX(XR a) { if (a.k) a.k = -a.k; else a.q = -a.q; return a; }
static XR addX(const XR &a, const XR &b) {  // inf-inf cannot arise for interval bounds
  if (a.k) return a; if (b.k) return b;
  XR r; r.q = a.q + b.q; return r;
}
static XR subX(const XR &a, const XR &b) { return addX(a, negX(b)); }
static XR mulX(const XR &a, const XR &b) {
  int s = sgnX(a) * sgnX(b);
  if (s == 0) return xi(0);
  if (a.k || b.k) return xinf(s);
  XR r; r.q = a.q * b.q; return r;
}
static bool divX(const XR &a, const XR &b, XR &r) {   // false: inf/inf, no candidate
  if (a.k && b.k) return false;
  if (b.k) { r = xi(0); return true; }
  if (a.k) { r = xinf(a.k * sgn(b.q)); return true; }
  r = XR(); r.q = a.q / b.q; return true;
}
static const XR &minX(const XR &a, const XR &b) { return cmpX(b, a) < 0 ? b : a; }
static const XR &maxX(const XR &a, const XR &b) { return cmpX(b, a) > 0 ? b : a; }

struct IV { XR l, u; };
struct Restrict {
  mpfr_exp_t e0, e1;
  Restrict(const Fmt &f) { e0 = mpfr_get_emin(); e1 = mpfr_get_emax(); mpfr_set_emin(f.emin - f.p + 2); mpfr_set_emax(f.emax + 1); }
  ~Restrict() { mpfr_set_emin(e0); mpfr_set_emax(e1); }
};
struct M { mpfr_t x; M(int p) { mpfr_init2(x, p); } ~M() { mpfr_clear(x); } M(const M &) = delete; operator mpfr_ptr() { return x; } };

static XR fromM(mpfr_srcptr m) {
  XR r;
  if (mpfr_nan_p(m)) { r.k = 2; return r; }
  if (mpfr_inf_p(m)) { r.k = mpfr_sgn(m) < 0 ? -1 : 1; return r; }
  if (mpfr_zero_p(m)) return r;
  mpz_class z; mpfr_exp_t e = mpfr_get_z_2exp(z.get_mpz_t(), m);
  if (e >= 0) { z <<= e; r.q = z; } else { mpz_class d = 1; d <<= -e; r.q = mpq_class(z, d); r.q.canonicalize(); }
  return r;
}
static XR roundX(const Fmt &f, const XR &a, bool up) {
  if (f.rat || a.k || sgn(a.q) == 0) return a;
  M m(f.p); mpfr_rnd_t rd = up ? MPFR_RNDU : MPFR_RNDD;
  int t = mpfr_set_q(m, a.q.get_mpq_t(), rd);
  { Restrict re(f); t = mpfr_check_range(m, t, rd); mpfr_subnormalize(m, t, rd); }
  return fromM(m);
}
static void setM(mpfr_ptr m, const XR &a, mpfr_rnd_t r) { if (a.k) mpfr_set_inf(m, a.k); else mpfr_set_q(m, a.q.get_mpq_t(), r); }
static XR sqrtX(const Fmt &f, const XR &a, bool up) {
  if (a.k || sgn(a.q) == 0) return a;
  M x(80), y(f.p); mpfr_rnd_t rd = up ? MPFR_RNDU : MPFR_RNDD;
  setM(x, a, MPFR_RNDN);           // operands have at most 64 bits: exact
  int t = mpfr_sqrt(y, x, rd);
  { Restrict re(f); t = mpfr_check_range(y, t, rd); mpfr_subnormalize(y, t, rd); }
  return fromM(y);
}

static std::string sx(const XR &a) {
  if (a.k == 2) return "nan"; if (a.k) return a.k < 0 ? "-inf" : "inf";
  M m(64); mpfr_set_q(m, a.q.get_mpq_t(), MPFR_RNDN);
  char *s = nullptr; mpfr_asprintf(&s, "%.20Rg", m.x); std::string r = s; mpfr_free_str(s); return r;
}
static std::string sIV(const IV &i) { return "[" + sx(i.l) + "," + sx(i.u) + "]"; }

std::string show(const WorldInfo &w, const NumV &v) {
  char b[80];
  if (w.rat) { if (v.d == 1) snprintf(b, sizeof b, "%lld", (long long)v.n); else snprintf(b, sizeof b, "%lld/%lld", (long long)v.n, (long long)v.d); }
  else snprintf(b, sizeof b, "%.21Lg", v.f);
  return b;
}

// ------------------------------------------------------------ set functions
static IV hullOf(std::vector<XR> c) { IV r{c[0], c[0]}; for (auto &x : c) { r.l = minX(r.l, x); r.u = maxX(r.u, x); } return r; }
static IV mulIV(const IV &a, const IV &b) { return hullOf({mulX(a.l, b.l), mulX(a.l, b.u), mulX(a.u, b.l), mulX(a.u, b.u)}); }
// y must not be [0,0]; hull of { x/y : y != 0 }
static IV divIV(const IV &x, const IV &y) {
  std::vector<XR> c;
  if (sgnX(y.l) > 0 || sgnX(y.u) < 0) {
    for (auto *p : {&x.l, &x.u}) for (auto *q : {&y.l, &y.u}) { XR r; if (divX(*p, *q, r)) c.push_back(r); }
    if (c.empty()) c.push_back(xi(0));
    return hullOf(c);
  }
  if (sgnX(x.l) == 0 && sgnX(x.u) == 0) return IV{xi(0), xi(0)};
  auto part = [&](const IV &x, const XR &b) { // x / (0,b], b > 0
    XR t; IV r;
    r.u = sgnX(x.u) > 0 ? xinf(1) : sgnX(x.u) == 0 ? xi(0) : (divX(x.u, b, t) ? t : xi(0));
    r.l = sgnX(x.l) < 0 ? xinf(-1) : sgnX(x.l) == 0 ? xi(0) : (divX(x.l, b, t) ? t : xi(0));
    return r;
  };
  bool have = false; IV res;
  if (sgnX(y.u) > 0) { res = part(x, y.u); have = true; }
  if (sgnX(y.l) < 0) {
    IV r = part(IV{negX(x.u), negX(x.l)}, negX(y.l));
    if (have) { res.l = minX(res.l, r.l); res.u = maxX(res.u, r.u); } else res = r;
  }
  return res;
}

// ------------------------------------------------------------ high-precision function bounds
typedef int (*mfun)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
static mfun libf(int op) {
  switch (op) {
    case OP_exp: return mpfr_exp; case OP_log: return mpfr_log; case OP_sin: return mpfr_sin; case OP_cos: return mpfr_cos; case OP_tan: return mpfr_tan;
    case OP_asin: return mpfr_asin; case OP_acos: return mpfr_acos; case OP_atan: return mpfr_atan; case OP_sinh: return mpfr_sinh; case OP_cosh: return mpfr_cosh;
    case OP_tanh: return mpfr_tanh; case OP_asinh: return mpfr_asinh; case OP_acosh: return mpfr_acosh; case OP_atanh: return mpfr_atanh;
  }
  return nullptr;
}
// f(x) rounded into the format
static XR libX(const Fmt &f, int op, const XR &a, bool up) {
  M x(80), y(f.p); mpfr_rnd_t rd = up ? MPFR_RNDU : MPFR_RNDD;
  setM(x, a, MPFR_RNDN);           // operands have at most 64 bits: exact
  int t = libf(op)(y, x, rd);
  { Restrict re(f); t = mpfr_check_range(y, t, rd); mpfr_subnormalize(y, t, rd); }
  return fromM(y);
}
// true if the bound `res` certainly cuts off the value f(arg):  lower bound above it, or upper bound below it
static bool cutsOff(mpfr_srcptr flo, mpfr_srcptr fhi, const XR &res, bool isLower, int slack) {
  if (res.k == 2) return true;
  M r(17000 > 0 ? 200 : 200);
  setM(r, res, isLower ? MPFR_RNDD : MPFR_RNDU);
  if (slack && !res.k) {
    M s(200); mpfr_abs(s, r, MPFR_RNDU); mpfr_mul_2si(s, s, -47, MPFR_RNDU); M t(200); mpfr_set_ui_2exp(t, 1, slack == 2 ? -30 : -1060, MPFR_RNDU); mpfr_add(s, s, t, MPFR_RNDU);
    if (isLower) mpfr_sub(r, r, s, MPFR_RNDD); else mpfr_add(r, r, s, MPFR_RNDU);
  }
  return isLower ? mpfr_cmp(r, fhi) > 0 : mpfr_cmp(r, flo) < 0;
}

// value of |x|^k compared with y, certain answers only: returns -1 / +1, 0 when unknown or equal
static int cmpPow(const XR &x, long k, const XR &y) {
  if (x.k) return 0;
  if (y.k == 0 && x.q.get_den() != 1 && mpz_popcount(x.q.get_den_mpz_t()) != 1) {   // exact numbers
    mpq_class r; long n = k < 0 ? -k : k;
    mpz_pow_ui(r.get_num_mpz_t(), x.q.get_num_mpz_t(), n); mpz_pow_ui(r.get_den_mpz_t(), x.q.get_den_mpz_t(), n); r.canonicalize();
    if (k < 0) r = 1 / r;
    int c = cmp(r, y.q); return c < 0 ? -1 : c > 0;
  }
  M a(400), lo(400), hi(400), yy(400);
  setM(a, x, MPFR_RNDN);
  mpfr_pow_si(lo, a, k, MPFR_RNDD); mpfr_pow_si(hi, a, k, MPFR_RNDU);
  if (y.k) { return y.k > 0 ? -1 : 1; }
  mpfr_set_q(yy, y.q.get_mpq_t(), MPFR_RNDD);
  if (mpfr_cmp(lo, yy) > 0) { M y2(400); mpfr_set_q(y2, y.q.get_mpq_t(), MPFR_RNDU); if (mpfr_cmp(lo, y2) > 0) return 1; }
  M y2(400); mpfr_set_q(y2, y.q.get_mpq_t(), MPFR_RNDD);
  if (mpfr_cmp(hi, y2) < 0) return -1;
  return 0;
}

// ------------------------------------------------------------ judging one call
struct J {
  const WorldInfo &w; const Fmt &f; const Rec &r; std::vector<Issue> &out;
  const char *nm;
  void add(const char *p, const std::string &s) { out.push_back({p, std::string(nm) + ": " + s}); }
  bool nanThrows() const { return w.chk == CK_CATCH || w.chk == CK_CATCHBASE; }
  bool nanEmpty() const { return w.chk == CK_BASE || w.chk == CK_NOEMPTY; }
  bool emptyOk() const { return w.chk == CK_BASE || w.chk == CK_CATCHBASE || w.chk == CK_NONAN; }
  XR X(const NumV &v) const { return fromNum(f, v); }
  bool emptyIv(const NumV *v) const { XR a = X(v[0]), b = X(v[1]); return a.k == 2 || b.k == 2 || cmpX(a, b) > 0; }
  bool isNan(const NumV &v) const { return !f.rat && v.f != v.f; }
  const NumV *res() const { return opHas(r.op, 'm') ? r.dst1 : r.r; }
  std::string gotS() const {
    if (r.outcome == OC_THROW) return std::string("exception ") + exName(r.ex);
    char t = opInfo[r.op].res;
    if (t == 'B' || t == '3') return r.rb ? (r.rb == 1 ? "true" : "indeterminate") : "false";
    if (t == 'T') return show(w, r.r[0]);
    if (t == 'Q') { std::string s; for (int i = 0; i < 4; ++i) s += (i ? ", " : "") + (r.rb >> i & 1 ? show(w, r.r[i]) : std::string("-")); return s; }
    if (t == 'P') return "[" + show(w, r.r[0]) + "," + show(w, r.r[1]) + "],[" + show(w, r.r[2]) + "," + show(w, r.r[3]) + "] flag " + std::to_string(r.rb);
    if (t == 'S') return std::string(r.stext, r.slen);
    return "[" + show(w, res()[0]) + "," + show(w, res()[1]) + "]";
  }

  // outcome of "create an empty interval"
  void expectEmpty(const char *why, bool mayNan, bool mustNan) {
    if (mustNan) { if (!(r.outcome == OC_THROW && r.ex == EX_POL_NAN)) add("C07", std::string(why) + ": expected the policy's invalid-number exception, got " + gotS()); return; }
    if (r.outcome == OC_THROW) {
      if (mayNan && r.ex == EX_POL_NAN) return;
      if (!emptyOk() && r.ex == EX_POL_EMPTY) return;
      add("C07", std::string(why) + ": expected " + (emptyOk() ? "an empty result" : "the policy's empty-interval exception") + ", got " + gotS());
      return;
    }
    if (!emptyOk()) { add("C07", std::string(why) + ": expected the policy's empty-interval exception, got " + gotS()); return; }
    if (opInfo[r.op].res == 'P') { if (!emptyIv(r.r) || (r.rb && !emptyIv(r.r + 2))) add("C07", std::string(why) + ": expected empty parts, got " + gotS()); return; }
    if (!emptyIv(res())) add("C07", std::string(why) + ": expected an empty result, got " + gotS());
  }
  void expectBool(bool v, const char *why, const char *prop) {
    if (r.outcome == OC_THROW) { add(prop, std::string(why) + ": expected " + (v ? "true" : "false") + ", got " + gotS()); return; }
    if ((r.rb != 0) != v) add(prop, std::string(why) + ": expected " + (v ? "true" : "false") + ", got " + gotS());
  }
  // no exception is legitimate here apart from those listed
  bool mustReturn(bool infOk = false) {
    if (r.outcome == OC_OK) return true;
    if (w.rat && r.ex == EX_NATURAL_OVERFLOW) return false;
    if (w.rat && infOk && r.ex == EX_POL_INF) return false;
    add("C06", "threw " + gotS() + " although neither the number type nor the policy failed");
    if (r.ex == EX_POL_EMPTY || r.ex == EX_POL_NAN) add("C02", "no result (" + gotS() + ") for valid operands");
    return false;
  }
  bool validBounds(const NumV *v, const char *prop) {
    XR a = X(v[0]), b = X(v[1]);
    if (a.k == 2 || b.k == 2 || cmpX(a, b) > 0) { add(prop, "result " + gotS() + " is empty or invalid for valid operands " + operands()); return false; }
    return true;
  }
  std::string operands() const;
  void contain(const NumV *v, const IV &e, const char *prop) {
    if (!validBounds(v, prop)) return;
    if (cmpX(X(v[0]), e.l) > 0 || cmpX(X(v[1]), e.u) < 0)
      add(prop, "result " + gotS() + " does not contain the exact range " + sIV(e) + " for " + operands());
  }
  void exact(const NumV *v, const IV &e, const char *prop) {   // e: exact real bounds
    size_t n = out.size();
    contain(v, e, prop);
    if (out.size() != n) return;
    XR l = roundX(f, e.l, false), u = roundX(f, e.u, true);
    if (cmpX(X(v[0]), l) != 0 || cmpX(X(v[1]), u) != 0)
      add(prop, "result " + gotS() + " is not the smallest enclosure " + sIV(IV{l, u}) + " for " + operands());
  }
  std::string relName() const { static const char *n[] = {" (<)", " (>)", " (<=)", " (>=)", " (==)", " (!=)"}; return opHas(r.op, 'K') ? n[r.k % 6] : ""; }
  void pred(bool v, const char *prop) {
    if (r.rb == NO_OVERLOAD) { add(prop, "does not compile for intervals of different policies"); return; }
    if (mustReturn() && (r.rb != 0) != v) add(prop, "answered " + gotS() + " for " + operands() + relName());
  }
  void setEq(const IV &e) {   // operands are representable, so is the exact answer
    if (r.outcome == OC_OK && !emptyIv(r.r) && (cmpX(X(r.r[0]), e.l) || cmpX(X(r.r[1]), e.u))) add("C13", "result " + gotS() + " instead of " + sIV(e) + " for " + operands());
  }
  bool isMid(const IV &a, const XR &m) const { XR c; c.q = (a.l.q + a.u.q) / 2; return cmpX(m, roundX(f, c, false)) >= 0 && cmpX(m, roundX(f, c, true)) <= 0; }
  void run();
  void badOperands(bool ea, bool eb, bool nt, bool ns, bool nx, bool ny, bool ew);
  void value();
  void transc(const IV &a);
  void remainder(const IV &x, const IV &y);
};

std::string J::operands() const {
  std::string s;
  for (const char *p = opInfo[r.op].args; *p; ++p) {
    switch (*p) {
      case 'A': s += "a=[" + show(w, r.a[0]) + "," + show(w, r.a[1]) + "] "; break;
      case 'O': if (r.smode) { s += "b=empty "; break; } // fall through
      case 'B': s += "b=[" + show(w, r.b[0]) + "," + show(w, r.b[1]) + "] "; break;
      case 'm': s += "left=[" + show(w, r.dst0[0]) + "," + show(w, r.dst0[1]) + "] "; break;
      case 'T': s += "t=" + show(w, r.t) + " "; break;
      case 'S': s += "s=" + show(w, r.s) + " "; break;
      case 'K': s += "k=" + std::to_string(r.k) + " "; break;
      case 'U': s += "x=" + show(w, r.x) + " "; break;
      case 'V': s += "y=" + show(w, r.y) + " "; break;
      case 'W': s += "w=[" + show(w, r.x) + "," + show(w, r.y) + "] "; break;
    }
  }
  if (!s.empty()) s.pop_back();
  return s;
}

void J::badOperands(bool ea, bool eb, bool nt, bool ns, bool nx, bool ny, bool ew) {
  bool em = ea || eb || ew;             // some interval operand empty
  bool na = nt || ns || nx || ny;       // some scalar invalid
  bool mayNan = na && nanThrows(), mustNan = mayNan && !em;
  auto same = [&](const NumV *v, const NumV &l, const NumV &u) {
    if (r.outcome == OC_THROW) { add("C07", "an ignored invalid argument raised " + gotS()); return; }
    if (!(sameNum(v[0], l) && sameNum(v[1], u))) add("C07", "an ignored invalid argument changed the result to " + gotS() + " for " + operands());
  };
  switch (r.op) {
    case OP_hull_II:
      if (ea && eb) expectEmpty("hull of two empty intervals", false, false);
      else same(r.r, ea ? r.b[0] : r.a[0], ea ? r.b[1] : r.a[1]);
      return;
    case OP_hull_IT: case OP_hull_TI:
      if (nt && nanThrows()) { expectEmpty("hull with an invalid number", true, true); return; }
      if (ea && nt) expectEmpty("hull of nothing", false, false);
      else if (ea) same(r.r, r.t, r.t); else same(r.r, r.a[0], r.a[1]);
      return;
    case OP_s_hull:
      if (nanThrows()) { expectEmpty("hull with an invalid number", true, true); return; }
      if (nt && ns) expectEmpty("hull of nothing", false, false);
      else if (nt) same(r.r, r.s, r.s); else same(r.r, r.t, r.t);
      return;
    case OP_lower: case OP_upper: case OP_clower: case OP_cupper: case OP_median: case OP_norm:
      if (w.rat) { if ((r.op == OP_lower || r.op == OP_upper)) return; if (r.outcome == OC_OK) add("C07", "returned " + gotS() + " for an empty interval"); return; }
      if (r.outcome == OC_THROW) { add("C07", "raised " + gotS() + " for an empty interval"); return; }
      if (!isNan(r.r[0])) add("C07", "returned " + gotS() + " for an empty interval");
      return;
    case OP_width:
      if (r.outcome == OC_THROW) add("C07", "width of an empty interval raised " + gotS());
      else if (!(w.rat ? r.r[0].n == 0 : r.r[0].f == 0)) add("C07", "width of an empty interval is " + gotS());
      return;
    case OP_empty: expectBool(true, "empty interval", "C07"); return;
    case OP_zero_in: case OP_singleton: expectBool(false, "empty interval", "C07"); return;
    case OP_in:
      if (nt && nanThrows()) { if (mustNan || r.outcome == OC_THROW) expectEmpty("membership of an invalid number", true, true); else expectBool(false, "empty interval", "C07"); return; }
      expectBool(false, "membership with an invalid number or empty interval", "C07"); return;
    case OP_subset: case OP_subset_o: expectBool(ea, "inclusion with an empty interval", "C07"); return;
    case OP_psubset: case OP_psubset_o: expectBool(ea && !eb, "proper inclusion with an empty interval", "C07"); return;
    case OP_overlap: case OP_overlap_o: expectBool(false, "overlap with an empty interval", "C07"); return;
    case OP_equal: case OP_equal_o: expectBool(ea && eb, "equality with an empty interval", "C07"); return;
    case OP_set_II: case OP_set_IO: {
      bool v;
      switch (r.k % 6) { case 0: v = ea && !eb; break; case 1: v = eb && !ea; break; case 2: v = ea; break; case 3: v = eb; break; case 4: v = ea && eb; break; default: v = !(ea && eb); }
      expectBool(v, "set comparison with an empty interval", "C07"); return;
    }
    case OP_set_IT: case OP_cer_IO: case OP_pos_IO: case OP_lex_IO: case OP_tri_IO: case OP_cmp_II: case OP_cmp_IO: case OP_cmp_IT: case OP_cer_II: case OP_cer_IT: case OP_pos_II: case OP_pos_IT: case OP_lex_II: case OP_lex_IT: case OP_tri_II: case OP_tri_IT:
      if (mayNan && r.outcome == OC_THROW && r.ex == EX_POL_NAN) return;
      if (mustNan && !(r.op == OP_set_IT && r.ex == EX_COMPARE)) { add("C07", "comparison with an invalid number: expected the policy's exception, got " + gotS()); return; }
      if (!(r.outcome == OC_THROW && r.ex == EX_COMPARE)) add("C07", "comparison with an invalid number or empty interval: expected the comparison error, got " + gotS());
      return;
    case OP_xcer_IO: case OP_xpos_IO: case OP_xcer_II: case OP_xcer_IT: case OP_xcer_TI: case OP_xpos_II: case OP_xpos_IT: case OP_xpos_TI: return;
    case OP_out: return;   // judged with the stream history
    case OP_ctor_copy: case OP_pos:
      if (r.outcome == OC_THROW) add("C07", "copying an empty interval raised " + gotS());
      else if (!emptyIv(r.r)) add("C07", "copy of an empty interval is " + gotS());
      return;
    case OP_asg_I:
      if (r.outcome == OC_THROW) add("C07", "copying an empty interval raised " + gotS());
      else if (!emptyIv(r.dst1)) add("C07", "copy of an empty interval is " + gotS());
      return;
    case OP_fmod_II: case OP_fmod_IT: case OP_fmod_TI:
      // other operand may be out of contract as well; emptiness is still due
      expectEmpty("operation on an invalid number or empty interval", mayNan, mustNan); return;
    case OP_divp:
      if (r.outcome == OC_OK && r.rb) { add("C07", "division of/by an empty interval announces a second part"); return; }
      expectEmpty("division of/by an empty interval", mayNan, mustNan); return;
    default:
      expectEmpty(na && !em ? "operation on an invalid number" : "operation on an empty interval", mayNan, mustNan);
  }
}

void J::remainder(const IV &x, const IV &y) {
  if (sgnX(y.l) <= 0) return;                       // outside the documented domain
  if (x.l.k || x.u.k || y.l.k || y.u.k) return;     // remainder by/of an unbounded interval is not specified
  if (!mustReturn()) return;
  if (!validBounds(r.r, "C10")) return;
  XR zl = X(r.r[0]), zu = X(r.r[1]);
  auto existsInt = [&](int dummy) {
    (void)dummy;
    for (int neg = 0; neg < 2; ++neg) {
      const XR &a = neg ? y.l : y.u, &b = neg ? y.u : y.l;   // lower hull xl - n*a, upper hull xu - n*b
      // n <= (xl - zl)/a ; n >= (xu - zu)/b
      bool hasHi = !zl.k, hasLo = !zu.k; mpz_class hi, lo;
      if (hasHi) { mpq_class q = (x.l.q - zl.q) / a.q; mpz_fdiv_q(hi.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); }
      if (hasLo) { mpq_class q = (x.u.q - zu.q) / b.q; mpz_cdiv_q(lo.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); }
      if (neg) { if (!hasHi || hi > -1) hi = -1, hasHi = true; } else { if (!hasLo || lo < 0) lo = 0, hasLo = true; }
      if (!hasHi || !hasLo || lo <= hi) return true;
    }
    return false;
  };
  if (!existsInt(0)) add("C10", "remainder " + gotS() + " contains x-n*y for no integer n, " + operands());
  // normalisation: lower bound in [0, y.upper) when the quotient is well within the precision
  if (!f.rat && zl.k == 0) {
    mpq_class q = abs(x.l.q) / (sgnX(x.l) < 0 ? y.l.q : y.u.q);
    mpz_class lim = 1; lim <<= (f.p - 2);
    if (q < mpq_class(lim)) {
      if (sgnX(zl) < 0 || cmpX(zl, y.u) >= 0) add("C10", "remainder's lower bound in " + gotS() + " is outside [0,y) for " + operands());
    }
  } else if (f.rat) {
    if (sgnX(zl) < 0 || cmpX(zl, y.u) >= 0) add("C10", "remainder's lower bound in " + gotS() + " is outside [0,y) for " + operands());
  }
}

void J::transc(const IV &a) {
  int op = r.op; const NumV *v = r.r;
  if (op == OP_pis) {
    if (!mustReturn() || !validBounds(v, "C10")) return;
    M p(200), q(200); mpfr_const_pi(p, MPFR_RNDD); mpfr_const_pi(q, MPFR_RNDU);
    if (r.k % 3 == 1) { mpfr_div_2ui(p, p, 1, MPFR_RNDD); mpfr_div_2ui(q, q, 1, MPFR_RNDU); }
    if (r.k % 3 == 2) { mpfr_mul_2ui(p, p, 1, MPFR_RNDD); mpfr_mul_2ui(q, q, 1, MPFR_RNDU); }
    if (cutsOff(p, q, X(v[0]), true, 0) || cutsOff(p, q, X(v[1]), false, 0)) add("C10", "constant " + gotS() + " does not contain it");
    return;
  }
  XR l = a.l, u = a.u;
  // domain
  XR one = xi(1), mone = xi(-1);
  bool undefined = false;
  switch (op) {
    case OP_log: undefined = sgnX(u) <= 0; if (sgnX(l) < 0) l = xi(0); break;
    case OP_asin: case OP_acos: case OP_atanh: undefined = cmpX(u, mone) < 0 || cmpX(l, one) > 0; l = maxX(l, mone); u = minX(u, one); break;
    case OP_acosh: undefined = cmpX(u, one) < 0; l = maxX(l, one); break;
    default: break;
  }
  if (undefined) { expectEmpty("outside the function's domain", false, false); return; }
  if (!mustReturn(w.rat)) return;
  int slack = w.libm;   // the real libm only nearly honours the mode: its last bits are not judged
  if (slack == 1 && X(v[0]).k != 2 && X(v[1]).k != 2) {} else if (!validBounds(v, "C10")) return;
  XR rl = X(v[0]), ru = X(v[1]);
  long need = 200;
  for (auto *x : {&l, &u}) if (!x->k && sgn(x->q)) {
    long e = (long)mpz_sizeinbase(x->q.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(x->q.get_den_mpz_t(), 2);
    if (e > 0 && (op == OP_cos || op == OP_sin || op == OP_tan)) need = std::max(need, e + 200);
  }
  if (need > 2000) return;
  mfun fn = libf(op);
  // candidate arguments whose images must lie inside
  std::vector<XR> pts;
  if (op == OP_sin || op == OP_cos || op == OP_tan) {
    if (l.k || u.k) {
      if (op == OP_tan) { if (rl.k != -1 || ru.k != 1) add("C10", "result " + gotS() + " over an unbounded argument"); }
      else if (cmpX(rl, mone) > 0 || cmpX(ru, one) < 0) add("C10", "result " + gotS() + " over an unbounded argument does not contain [-1,1]");
      return;
    }
    // extrema (cos: k*pi; sin: pi/2 + k*pi; tan: poles pi/2 + k*pi)
    M x(need), pl(need), pu(need), t(need), h(need);
    mpfr_const_pi(pl, MPFR_RNDD); mpfr_const_pi(pu, MPFR_RNDU);
    auto quot = [&](const XR &y, bool up, mpz_class &z) { // integer bound of (y/pi - shift)
      setM(x, y, MPFR_RNDN);
      mpfr_div(t, x, (sgnX(y) >= 0) == up ? pl : pu, up ? MPFR_RNDU : MPFR_RNDD);
      if (op != OP_cos) { mpfr_set_d(h, 0.5, MPFR_RNDN); mpfr_sub(t, t, h, up ? MPFR_RNDU : MPFR_RNDD); }
      if (up) mpfr_get_z(z.get_mpz_t(), t, MPFR_RNDU); else mpfr_get_z(z.get_mpz_t(), t, MPFR_RNDD);
    };
    mpz_class k0, k1;
    quot(l, true, k0);   // smallest k certainly >= l
    quot(u, false, k1);  // largest k certainly <= u
    if (op == OP_cos && sgnX(l) <= 0 && sgnX(u) >= 0) { if (cmpX(ru, one) < 0) add("C10", "result " + gotS() + " misses 1 at 0 for " + operands()); }
    if (k0 <= k1) {
      if (op == OP_tan) { if (rl.k != -1 || ru.k != 1) add("C10", "result " + gotS() + " although the argument " + operands() + " contains a pole"); return; }
      bool even = k0 % 2 == 0, odd = !even; if (k0 < k1) even = odd = true;
      if (even && cmpX(ru, one) < 0) add("C10", "result " + gotS() + " misses the maximum 1 for " + operands());
      if (odd && cmpX(rl, mone) > 0) add("C10", "result " + gotS() + " misses the minimum -1 for " + operands());
    }
  }
  if (op == OP_cosh && sgnX(l) <= 0 && sgnX(u) >= 0) pts.push_back(xi(0));
  pts.push_back(l); pts.push_back(u);
  M x(need > 200 ? need : 200), flo(200), fhi(200);
  for (auto &p : pts) {
    setM(x, p, MPFR_RNDN);
    // operands have at most 64 significant bits, so x is exact
    fn(flo, x, MPFR_RNDD); fn(fhi, x, MPFR_RNDU);
    if (mpfr_nan_p(flo.x)) continue;
    if (cutsOff(flo, fhi, rl, true, slack) || cutsOff(flo, fhi, ru, false, slack)) {
      char *s = nullptr; mpfr_asprintf(&s, "%.25Rg", flo.x); std::string ss = s; mpfr_free_str(s);
      add("C10", "result " + gotS() + " excludes f(" + sx(p) + ")=" + ss + " for " + operands());
      return;
    }
  }
  if (slack) return;
  if (op == OP_sin || op == OP_cos) {
    if (cmpX(rl, mone) < 0 || cmpX(ru, one) > 0) add("C10", "result " + gotS() + " is not within [-1,1] for " + operands());
    return;
  }
  if (op == OP_tan) return;
  // monotone functions: the smallest enclosure (the ends of the domains of asin and acos need the constant pi)
  XR lo = l, hi = u;
  if (op == OP_acos) std::swap(lo, hi);
  if (op == OP_cosh) {
    if (sgnX(u) < 0) std::swap(lo, hi);
    else if (sgnX(l) < 0) { lo = xi(0); if (cmpX(negX(l), u) > 0) hi = l; }
  }
  bool ends = op == OP_asin || op == OP_acos;
  auto end = [&](const XR &x) { return ends && !x.k && (cmpX(x, mone) <= 0 || cmpX(x, one) >= 0) && !(op == OP_acos && cmpX(x, one) == 0); };
  XR el = libX(f, op, lo, false), eu = libX(f, op, hi, true);
  if ((!end(lo) && cmpX(rl, el)) || (!end(hi) && cmpX(ru, eu)))
    add("C10t", "result " + gotS() + " is not the smallest enclosure [" + sx(el) + "," + sx(eu) + "] for " + operands());
}

static bool relOk(int k, const IV &x, const IV &y, bool &certain, bool &val) { // default comparison semantics
  int c1 = cmpX(x.u, y.l), c2 = cmpX(x.l, y.u), c3 = cmpX(x.u, y.l), c4 = cmpX(x.l, y.u);
  bool t = false, n = false;
  switch (k % 6) {
    case 0: t = c1 < 0; n = c2 >= 0; break;
    case 1: t = c2 > 0; n = c1 <= 0; break;
    case 2: t = c1 <= 0; n = c2 > 0; break;
    case 3: t = c2 >= 0; n = c1 < 0; break;
    case 4: t = c3 == 0 && c4 == 0; n = c1 < 0 || c2 > 0; break;
    default: t = c1 < 0 || c2 > 0; n = c3 == 0 && c4 == 0; break;
  }
  certain = t || n; val = t; return certain;
}

void J::value() {
  IV a{X(r.a[0]), X(r.a[1])}, b{X(r.b[0]), X(r.b[1])}, d{X(r.dst0[0]), X(r.dst0[1])};
  XR t = X(r.t), s = X(r.s), x = X(r.x), y = X(r.y);
  if (opHas(r.op, 'U') || opHas(r.op, 'W')) { // foreign values are not in the format of the number type
    Fmt wide{64, -16382, 16383, f.rat, true}; x = fromNum(wide, r.x); y = fromNum(wide, r.y);
  }
  IV T{t, t}, S{s, s}, L{d.l, d.l}, H{d.u, d.u};
  auto zeroIv = [](const IV &v) { return sgnX(v.l) == 0 && sgnX(v.u) == 0; };
  auto hasZero = [](const IV &v) { return sgnX(v.l) <= 0 && sgnX(v.u) >= 0; };
  auto ex = [&](const NumV *v, const IV &e) { if (mustReturn()) exact(v, e, "C02"); };
  auto co = [&](const NumV *v, const IV &e, bool infOk = false) { if (mustReturn(infOk)) contain(v, e, "C02"); };
  auto add_ = [](const IV &p, const IV &q) { return IV{addX(p.l, q.l), addX(p.u, q.u)}; };
  auto sub_ = [](const IV &p, const IV &q) { return IV{subX(p.l, q.u), subX(p.u, q.l)}; };
  auto dv = [&](const NumV *v, const IV &p, const IV &q) {
    if (zeroIv(q)) { expectEmpty("division by exact zero", false, false); return; }
    IV e = divIV(p, q);
    if (hasZero(q) && (w.rat || hasZero(p))) co(v, e, true); else ex(v, e);
  };
  const NumV *R = r.r, *D = r.dst1;
  switch (r.op) {
    case OP_ctor_T: ex(R, T); break;
    case OP_asg_T: ex(D, T); break;
    case OP_asg_L: ex(D, L); break;
    case OP_asg_H: ex(D, H); break;
    case OP_ctor_0: ex(R, IV{xi(0), xi(0)}); break;
    case OP_assign_al: {
      XR lo[] = {t, d.u, d.l, t, d.l, d.u}, hi[] = {d.l, t, t, d.u, d.u, d.l};
      IV e{lo[r.k % 6], hi[r.k % 6]};
      if (e.l.k && !cmpX(e.l, e.u)) break;   // an infinity as a number
      if (cmpX(e.l, e.u) > 0) expectEmpty("bounds in the wrong order", false, false); else ex(D, e);
    } break;
    case OP_ctor_TS: case OP_assign_TS: {
      const NumV *v = r.op == OP_ctor_TS ? R : D;
      if (cmpX(t, s) > 0) expectEmpty("bounds in the wrong order", false, false); else ex(v, IV{t, s});
    } break;
    case OP_ctor_U: ex(R, IV{x, x}); break;
    case OP_asg_U: ex(D, IV{x, x}); break;
    case OP_ctor_UV: if (cmpX(x, y) > 0) expectEmpty("bounds in the wrong order", false, false); else ex(R, IV{x, y}); break;
    case OP_ctor_obase: ex(R, IV{x, y}); break;
    case OP_asg_obase: ex(D, IV{x, y}); break;
    case OP_ctor_copy: case OP_pos: ex(R, a); break;
    case OP_ctor_opol: ex(R, b); break;
    case OP_asg_I: case OP_asg_opol: ex(D, b); break;
    case OP_s_empty: expectEmpty("empty()", false, false); break;
    case OP_s_whole: if (mustReturn(true)) contain(R, IV{xinf(-1), xinf(1)}, "C02"); break;
    case OP_s_hull: ex(R, IV{minX(t, s), maxX(t, s)}); setEq(IV{minX(t, s), maxX(t, s)}); break;
    case OP_neg: ex(R, IV{negX(a.u), negX(a.l)}); break;
    case OP_add_II: ex(R, add_(a, b)); break;
    case OP_add_TI: case OP_add_IT: ex(R, add_(a, T)); break;
    case OP_sub_II: ex(R, sub_(a, b)); break;
    case OP_sub_TI: ex(R, sub_(T, a)); break;
    case OP_sub_IT: ex(R, sub_(a, T)); break;
    case OP_mul_II: ex(R, mulIV(a, b)); break;
    case OP_mul_TI: case OP_mul_IT: ex(R, mulIV(a, T)); break;
    case OP_div_II: dv(R, a, b); break;
    case OP_div_TI: dv(R, T, a); break;
    case OP_div_IT: dv(R, a, T); break;
    case OP_addi_II: ex(D, add_(d, b)); break;
    case OP_addi_IT: ex(D, add_(d, T)); break;
    case OP_subi_II: ex(D, sub_(d, b)); break;
    case OP_subi_IT: ex(D, sub_(d, T)); break;
    case OP_muli_II: ex(D, mulIV(d, b)); break;
    case OP_muli_IT: ex(D, mulIV(d, T)); break;
    case OP_divi_II: dv(D, d, b); break;
    case OP_divi_IT: dv(D, d, T); break;
    case OP_addi_IL: if (!L.l.k) ex(D, add_(d, L)); break;
    case OP_addi_IH: if (!H.l.k) ex(D, add_(d, H)); break;
    case OP_subi_IL: if (!L.l.k) ex(D, sub_(d, L)); break;
    case OP_subi_IH: if (!H.l.k) ex(D, sub_(d, H)); break;
    case OP_muli_IL: if (!L.l.k) ex(D, mulIV(d, L)); break;
    case OP_muli_IH: if (!H.l.k) ex(D, mulIV(d, H)); break;
    case OP_divi_IL: if (!L.l.k) dv(D, d, L); break;
    case OP_divi_IH: if (!H.l.k) dv(D, d, H); break;
    case OP_add_TS: ex(R, add_(T, S)); break;
    case OP_sub_TS: ex(R, sub_(T, S)); break;
    case OP_mul_TS: ex(R, mulIV(T, S)); break;
    case OP_div_TS: dv(R, T, S); break;
    case OP_extint: {
      int n = (r.k >> 3) - 64; IV N{xi(n), xi(n)};
      // the integer is first converted to the number type: only judged when that is exact
      if (!f.rat && cmpX(roundX(f, N.l, true), N.l) != 0) break;
      switch (r.k & 7) { case 0: case 1: ex(R, add_(a, N)); break; case 2: ex(R, sub_(a, N)); break; case 3: ex(R, sub_(N, a)); break;
        case 4: case 5: ex(R, mulIV(a, N)); break; case 6: dv(R, a, N); break; default: dv(R, N, a); }
    } break;
    case OP_fmod_II: remainder(a, b); break;
    case OP_fmod_IT: remainder(a, T); break;
    case OP_fmod_TI: remainder(T, a); break;
    case OP_divp: {
      if (zeroIv(b)) { expectEmpty("division by exact zero", false, false); break; }
      if (!mustReturn(hasZero(b))) break;
      if (!validBounds(r.r, "C02")) break;
      if (!r.rb) { contain(r.r, divIV(a, b), "C02"); break; }
      if (!validBounds(r.r + 2, "C02")) break;
      // two parts: the negative-divisor part and the positive-divisor part must both be covered
      XR l1 = X(r.r[0]), u1 = X(r.r[1]), l2 = X(r.r[2]), u2 = X(r.r[3]);
      auto inside = [&](const IV &e) { return (cmpX(l1, e.l) <= 0 && cmpX(e.u, u1) <= 0) || (cmpX(l2, e.l) <= 0 && cmpX(e.u, u2) <= 0) ||
          (cmpX(minX(l1, l2), e.l) <= 0 && cmpX(e.u, maxX(u1, u2)) <= 0 && cmpX(l2, u1) <= 0 && cmpX(l1, u2) <= 0); };
      bool ok = true;
      if (sgnX(b.u) > 0) ok = ok && inside(divIV(a, IV{xi(0), b.u}));
      if (sgnX(b.l) < 0) ok = ok && inside(divIV(a, IV{b.l, xi(0)}));
      if (!ok) add("C02", "division parts " + gotS() + " do not cover the quotients of " + operands());
    } break;
    case OP_inv: dv(R, IV{xi(1), xi(1)}, a); break;
    case OP_square: {
      XR p = mulX(a.l, a.l), q = mulX(a.u, a.u);
      ex(R, IV{hasZero(a) ? xi(0) : minX(p, q), maxX(p, q)});
    } break;
    case OP_sqrt:
      if (sgnX(a.u) < 0) { expectEmpty("square root of a negative interval", false, false); break; }
      if (mustReturn() && validBounds(R, "C02")) {
        XR l = sgnX(a.l) <= 0 ? xi(0) : sqrtX(f, a.l, false), u = sqrtX(f, a.u, true);
        if (cmpX(X(R[0]), l) > 0 || cmpX(X(R[1]), u) < 0) add("C02", "result " + gotS() + " does not contain the square roots of " + operands());
        else if (cmpX(X(R[0]), l) || cmpX(X(R[1]), u)) add("C02", "result " + gotS() + " is not the smallest enclosure " + sIV(IV{l, u}) + " of the square roots of " + operands());
      }
      break;
    case OP_pow: {
      int k = r.k;
      if (k == 0 && zeroIv(a)) { // 0^0: documentation and implementation disagree, either is accepted
        if (r.outcome == OC_THROW) { if (emptyOk() || r.ex != EX_POL_EMPTY) add("C06", "0^0 raised " + gotS()); break; }
        if (!emptyIv(R)) contain(R, IV{xi(1), xi(1)}, "C02");
        break;
      }
      if (k == 0) { ex(R, IV{xi(1), xi(1)}); break; }
      if (k < 0 && zeroIv(a)) { expectEmpty("negative power of exact zero", false, false); break; }
      // pow(a,|k|) may underflow/overflow before the inversion: only enclosure is required
      if (k < 0 && w.rat && hasZero(a)) { mustReturn(true); if (r.outcome != OC_OK) break; }
      else if (!mustReturn(false)) break;
      if (!validBounds(R, "C02")) break;
      XR rl = X(R[0]), ru = X(R[1]);
      int kk = k < 0 ? -k : k;
      // every member m of a (m != 0 when k<0): test the end points and zero
      auto member = [&](const XR &m) {
        bool neg = sgnX(m) < 0 && (kk & 1);
        XR am = sgnX(m) < 0 ? negX(m) : m;
        bool bad = false;
        if (m.k) { // limit value
          XR v = k > 0 ? xinf(neg ? -1 : 1) : xi(0);
          bad = cmpX(rl, v) > 0 || cmpX(ru, v) < 0;
        } else if (sgn(m.q) == 0) {
          if (k > 0) bad = sgnX(rl) > 0 || sgnX(ru) < 0;
          else if (sgnX(a.u) > 0 && ru.k != 1) bad = true;
          else if (sgnX(a.l) < 0 && ((kk & 1) ? rl.k != -1 : ru.k != 1)) bad = true;
        } else {
          if (!neg) { // value am^k > 0
            if (sgnX(rl) > 0 && cmpPow(am, k, rl) < 0) bad = true;
            if (sgnX(ru) <= 0 || (ru.k == 0 && cmpPow(am, k, ru) > 0)) bad = true;
          } else {    // value -(am^k)
            if (sgnX(ru) < 0 && cmpPow(am, k, negX(ru)) < 0) bad = true;
            if (sgnX(rl) >= 0 || (rl.k == 0 && cmpPow(am, k, negX(rl)) > 0)) bad = true;
          }
        }
        if (bad) add("C02", "result " + gotS() + " excludes (" + sx(m) + ")^" + std::to_string(k) + " for " + operands());
        return bad;
      };
      if (member(a.l)) break;
      if (member(a.u)) break;
      if (hasZero(a)) member(xi(0));
    } break;
    case OP_nth_root: {
      int k = r.k; bool even = !(k & 1);
      if (even && sgnX(a.u) < 0) { expectEmpty("even root of a negative interval", false, false); break; }
      if (!mustReturn() || !validBounds(R, "C02")) break;
      XR rl = X(R[0]), ru = X(R[1]);
      auto member = [&](const XR &m) {
        bool bad = false;
        if (m.k) bad = m.k < 0 ? rl.k != -1 : ru.k != 1;
        else if (sgn(m.q) == 0) bad = sgnX(rl) > 0 || sgnX(ru) < 0;
        else if (sgn(m.q) > 0) {
          if (sgnX(rl) > 0 && (rl.k || cmpPow(rl, k, m) > 0)) bad = true;
          if (sgnX(ru) <= 0 || (!ru.k && cmpPow(ru, k, m) < 0)) bad = true;
        } else {
          XR am = negX(m);
          if (sgnX(ru) < 0 && (ru.k || cmpPow(negX(ru), k, am) > 0)) bad = true;
          if (sgnX(rl) >= 0 || (!rl.k && cmpPow(negX(rl), k, am) < 0)) bad = true;
        }
        if (bad) add("C02", "result " + gotS() + " excludes the " + std::to_string(k) + "-th root of " + sx(m) + " for " + operands());
        return bad;
      };
      XR lo = even ? maxX(a.l, xi(0)) : a.l;
      if (member(lo)) break;
      member(a.u);
    } break;
    case OP_width: if (mustReturn()) { XR v = X(R[0]), e = subX(a.u, a.l); if (v.k == 2 || cmpX(v, e) < 0) add("C02", "width " + gotS() + " is below the true width " + sx(e) + " of " + operands()); else if (cmpX(v, roundX(f, e, true))) add("C02", "width " + gotS() + " is not the true width " + sx(e) + " rounded up, of " + operands()); } break;
    case OP_norm: if (mustReturn()) { XR v = X(R[0]); if (v.k == 2 || cmpX(v, a.u) < 0 || cmpX(v, negX(a.l)) < 0) add("C02", "norm " + gotS() + " is below the magnitude of members of " + operands()); else if (cmpX(v, maxX(a.u, negX(a.l)))) add("C02", "norm " + gotS() + " is above the magnitude of all members of " + operands()); } break;
    case OP_lower: case OP_clower: if (mustReturn() && cmpX(X(R[0]), a.l)) add("C02", "lower bound " + gotS() + " of " + operands()); break;
    case OP_upper: case OP_cupper: if (mustReturn() && cmpX(X(R[0]), a.u)) add("C02", "upper bound " + gotS() + " of " + operands()); break;
    case OP_median:
      if (mustReturn() && !a.l.k && !a.u.k) { XR m = X(R[0]); if (m.k == 2 || cmpX(m, a.l) < 0 || cmpX(m, a.u) > 0) add("C13", "median " + gotS() + " is not a member of " + operands()); else if (!isMid(a, m)) add("C13", "median " + gotS() + " is not next to the midpoint of " + operands()); }
      break;
    case OP_widen: if (sgnX(t) >= 0) ex(R, IV{subX(a.l, t), addX(a.u, t)}); break;
    case OP_abs: ex(R, IV{hasZero(a) ? xi(0) : minX(sgnX(a.l) < 0 ? negX(a.l) : a.l, sgnX(a.u) < 0 ? negX(a.u) : a.u), maxX(negX(a.l), a.u)}); break;
    case OP_max_II: ex(R, IV{maxX(a.l, b.l), maxX(a.u, b.u)}); break;
    case OP_max_IT: case OP_max_TI: ex(R, IV{maxX(a.l, t), maxX(a.u, t)}); break;
    case OP_min_II: ex(R, IV{minX(a.l, b.l), minX(a.u, b.u)}); break;
    case OP_min_IT: case OP_min_TI: ex(R, IV{minX(a.l, t), minX(a.u, t)}); break;
    case OP_intersect: {
      IV e{maxX(a.l, b.l), minX(a.u, b.u)};
      if (cmpX(e.l, e.u) > 0) {
        expectEmpty("intersection of disjoint intervals", false, false);
        if (r.outcome == OC_OK && !emptyIv(R)) add("C13", "intersection of disjoint intervals is " + gotS() + " for " + operands());
      } else { co(R, e); setEq(e); }
    } break;
    case OP_hull_II: { IV e{minX(a.l, b.l), maxX(a.u, b.u)}; co(R, e); setEq(e); } break;
    case OP_hull_IT: case OP_hull_TI: { IV e{minX(a.l, t), maxX(a.u, t)}; co(R, e); setEq(e); } break;
    case OP_bisect:
      if (mustReturn()) {
        if (a.l.k || a.u.k) break;      // the midpoint of an unbounded interval is not specified
        XR m1 = X(R[1]), m2 = X(R[2]);
        if (m1.k == 2 || m2.k == 2) add("C13", "bisection parts " + gotS() + " are not [lower,m],[m,upper] for " + operands());
        else if (cmpX(X(R[0]), a.l) || cmpX(X(R[3]), a.u) || cmpX(m1, m2) || cmpX(m1, a.l) < 0 || cmpX(m1, a.u) > 0)
          add("C13", "bisection parts " + gotS() + " are not [lower,m],[m,upper] for " + operands());
        else if (!isMid(a, m1)) add("C13", "bisection parts " + gotS() + " do not meet next to the midpoint of " + operands());
        if (m1.k == 2 || m2.k == 2 || cmpX(X(R[0]), a.l) > 0 || cmpX(X(R[3]), a.u) < 0 || cmpX(m1, m2) < 0) add("C02", "bisection parts " + gotS() + " do not cover " + operands());
      }
      break;
    case OP_cmp_II: case OP_cmp_IO: case OP_cmp_IT: {
      bool certain, val; relOk(r.k, a, r.op == OP_cmp_IT ? T : b, certain, val);
      if (r.outcome == OC_THROW && r.ex == EX_COMPARE) { if (certain) { add("C06", "comparison error although the comparison is certain for " + operands()); add("C12", "comparison error although the comparison is certain for " + operands()); } }
      else if (mustReturn()) {
        if (!certain) add("C12", "answered " + gotS() + " to an uncertain comparison of " + operands());
        else if ((r.rb != 0) != val) add("C12", "answered " + gotS() + " for " + operands() + relName());
      }
    } break;
    case OP_cer_II: case OP_cer_IO: case OP_cer_IT: case OP_xcer_II: case OP_xcer_IO: case OP_xcer_IT: case OP_xcer_TI: {
      bool c, v; bool sc = r.op == OP_cer_IT || r.op == OP_xcer_IT;
      if (r.op == OP_xcer_TI) relOk(r.k, T, a, c, v); else relOk(r.k, a, sc ? T : b, c, v);
      pred(c && v, "C12");
    } break;
    case OP_pos_II: case OP_pos_IO: case OP_pos_IT: case OP_xpos_II: case OP_xpos_IO: case OP_xpos_IT: case OP_xpos_TI: {
      bool c, v; bool sc = r.op == OP_pos_IT || r.op == OP_xpos_IT;
      if (r.op == OP_xpos_TI) relOk(r.k, T, a, c, v); else relOk(r.k, a, sc ? T : b, c, v);
      pred(!c || v, "C12");
    } break;
    case OP_tri_II: case OP_tri_IO: case OP_tri_IT: {
      bool c, v; relOk(r.k, a, r.op == OP_tri_IT ? T : b, c, v);
      int e = !c ? 2 : v;
      if (mustReturn() && r.rb != e) add("C12", "answered " + gotS() + " instead of " + (e == 2 ? "indeterminate" : e ? "true" : "false") + " for " + operands() + relName());
    } break;
    case OP_lex_II: case OP_lex_IO: case OP_lex_IT: {
      const IV &q = r.op == OP_lex_IT ? T : b;
      int c = cmpX(a.l, q.l); if (!c) c = cmpX(a.u, q.u);
      bool v[] = {c < 0, c > 0, c <= 0, c >= 0, c == 0, c != 0};
      pred(v[r.k % 6], "C12");
    } break;
    case OP_set_II: case OP_set_IO: {
      bool ab = cmpX(b.l, a.l) <= 0 && cmpX(a.u, b.u) <= 0, ba = cmpX(a.l, b.l) <= 0 && cmpX(b.u, a.u) <= 0;
      bool v[] = {ab && !ba, ba && !ab, ab, ba, ab && ba, !(ab && ba)};
      pred(v[r.k % 6], "C12");
    } break;
    case OP_set_IT: if (!(r.outcome == OC_THROW && r.ex == EX_COMPARE)) add("C12", "set comparison with a number: expected the comparison error, got " + gotS()); break;
    case OP_empty: pred(false, "C13"); break;
    case OP_zero_in: pred(hasZero(a), "C13"); break;
    case OP_in: pred(cmpX(a.l, t) <= 0 && cmpX(t, a.u) <= 0, "C13"); break;
    case OP_subset: case OP_subset_o: pred(cmpX(b.l, a.l) <= 0 && cmpX(a.u, b.u) <= 0, "C13"); break;
    case OP_psubset: case OP_psubset_o: pred(cmpX(b.l, a.l) <= 0 && cmpX(a.u, b.u) <= 0 && (cmpX(a.l, b.l) || cmpX(a.u, b.u)), "C13"); break;
    case OP_overlap: case OP_overlap_o: pred(cmpX(a.l, b.u) <= 0 && cmpX(b.l, a.u) <= 0, "C13"); break;
    case OP_equal: case OP_equal_o: pred(cmpX(a.l, b.l) == 0 && cmpX(a.u, b.u) == 0, "C13"); break;
    case OP_singleton: pred(cmpX(a.l, a.u) == 0, "C13"); break;
    case OP_out: break;
    case OP_lim: if ((r.k % 6) == 4) expectEmpty("numeric_limits::quiet_NaN", false, false); else mustReturn(); break;
    default:
      if (opGrp(r.op, 't')) transc(a);
      else mustReturn();
  }
}

void J::run() {
  if (r.kind != SK_OP || !r.done || r.fired) return;
  if (opGrp(r.op, 'p')) { judgePrims(w, f, r, out); return; }
  bool ea = opHas(r.op, 'A') && emptyIv(r.a);
  bool eb = ((opHas(r.op, 'B') || opHas(r.op, 'O')) && emptyIv(r.b)) || (opHas(r.op, 'O') && r.smode);
  bool ed = opHas(r.op, 'm') && emptyIv(r.dst0);
  bool nt = opHas(r.op, 'T') && isNan(r.t), ns = opHas(r.op, 'S') && isNan(r.s);
  if (r.op == OP_assign_al && r.k % 6 >= 4) nt = false;
  if (r.op == OP_assign_al && ed && (f.rat || (!nanThrows() && !nanEmpty()))) return;
  if (r.op == OP_assign_al && ed) nt = true, ed = false;
  bool nx = opHas(r.op, 'U') && !f.rat && r.x.f != r.x.f, ny = opHas(r.op, 'V') && !f.rat && r.y.f != r.y.f;
  bool ew = opHas(r.op, 'W') && r.smode;
  if (opHas(r.op, 'L') || opHas(r.op, 'H')) if (ed) {
    // the aliased bound of an empty interval: the interval operand is empty as well; NaN policies may trigger
    nt = !f.rat; eb = true;
  }
  // an assignment ignores what was in the left operand before
  bool assignOp = r.op == OP_asg_T || r.op == OP_asg_U || r.op == OP_asg_I || r.op == OP_asg_opol || r.op == OP_asg_obase || r.op == OP_assign_TS;
  if (ed && !assignOp) eb = true;
  if (ea || eb || nt || ns || nx || ny || ew) {
    if ((nt || ns || nx || ny) && !nanThrows() && !nanEmpty()) return;   // policy without number checks
    if (r.op == OP_asg_L || r.op == OP_asg_H) { if (f.rat) return; eb = false; nt = true; }
    badOperands(ea, eb, nt, ns, nx, ny, ew);
  } else value();
}

static XR roundNear(const Fmt &f, const XR &a) {     // ties to even
  if (f.rat || a.k || sgn(a.q) == 0) return a;
  XR l = roundX(f, a, false), u = roundX(f, a, true);
  if (l.k || u.k || !cmpX(l, u)) return l;
  mpq_class dl = a.q - l.q, du = u.q - a.q; int c = cmp(dl, du);
  if (c) return c < 0 ? l : u;
  // the midpoint of two neighbours: the one that is an even multiple of their distance
  mpq_class g = l.q / (u.q - l.q);
  return mpz_even_p(g.get_num_mpz_t()) ? l : u;
}
static XR intOf(const XR &a, int dir) {  // -1 down, 1 up, 0 nearest even
  if (a.k) return a;
  mpz_class z;
  if (dir < 0) mpz_fdiv_q(z.get_mpz_t(), a.q.get_num_mpz_t(), a.q.get_den_mpz_t());
  else if (dir > 0) mpz_cdiv_q(z.get_mpz_t(), a.q.get_num_mpz_t(), a.q.get_den_mpz_t());
  else {
    mpz_fdiv_q(z.get_mpz_t(), a.q.get_num_mpz_t(), a.q.get_den_mpz_t());
    mpq_class h = a.q - z - mpq_class(1, 2); int c = sgn(h);
    if (c > 0 || (!c && mpz_odd_p(z.get_mpz_t()))) ++z;
  }
  XR r; r.q = z; return r;
}
void judgePrims(const WorldInfo &w, const Fmt &f, const Rec &r, std::vector<Issue> &out) {
  J j{w, f, r, out, opInfo[r.op].name};
  if (!f.rat && r.op != OP_rndc && (j.isNan(r.t) || j.isNan(r.s))) return;
  if (!f.rat && r.op == OP_rndc && r.x.f != r.x.f) return;
  if (!r.fired && !j.mustReturn()) return;
  auto bad = [&](int i, const std::string &what, const XR &e) { j.add("C16", "call " + std::to_string(i + 1) + " of " + j.gotS() + ": " + what + " is not " + sx(e) + " for " + j.operands()); };
  // dir -1 down, 1 up, 0 nearest; exact value e
  auto check = [&](int i, int dir, const XR &e, const std::string &what) {
    XR v = j.X(r.r[i]);
    if (dir) { XR x = roundX(f, e, dir > 0); if (v.k == 2 || cmpX(v, x)) bad(i, what, x); return; }
    XR lo = roundX(f, e, false), hi = roundX(f, e, true), x = roundNear(f, e);
    if (lo.k || hi.k) return;
    if (v.k == 2 || (f.ext ? cmpX(v, lo) < 0 || cmpX(v, hi) > 0 : cmpX(v, x))) bad(i, what, x);
  };
  if (r.op == OP_rndc) {
    Fmt wide{64, -16382, 16383, f.rat, true}; XR x = fromNum(wide, r.x);
    if (x.k) return;
    for (int i = 0; i < 4; ++i) if (r.rb >> i & 1) check(i, r.k >> i & 1 ? 1 : -1, x, r.k >> i & 1 ? "conv_up" : "conv_down");
    return;
  }
  if (r.op == OP_rctl) {
    XR t = j.X(r.t), s = j.X(r.s); int k = r.k;
    if (t.k || s.k) return;
    for (int i = 0; i < 4; ++i, k /= 12) {
      int g = k % 12, dir = g / 4 % 3 == 0 ? -1 : g / 4 % 3 == 1 ? 1 : 0;
      if (!(r.rb >> i & 1)) continue;
      std::string d = dir < 0 ? " rounded downward" : dir ? " rounded upward" : " rounded to nearest";
      switch (g % 4) {
        case 0: check(i, dir, addX(t, s), "t+s" + d); break;
        case 1: check(i, dir, mulX(t, s), "t*s" + d); break;
        case 2: check(i, dir, subX(t, s), "t-s" + d); break;
        default: if (!f.rat) { XR v = j.X(r.r[i]), e = intOf(t, dir); if (v.k == 2 || cmpX(v, e)) bad(i, "the integer of t" + d, e); }
      }
    }
    return;
  }
  static const char *pn[] = {"add_down", "add_up", "sub_down", "sub_up", "mul_down", "mul_up", "div_down", "div_up", "median", "int_down", "int_up", "sqrt_down", "sqrt_up"};
  static const char *fn[] = {"exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"};
  for (int i = 0; i < 4; ++i) {
    if (!(r.rb >> i & 1)) continue;
    PrimCall c = primCall(r.op, r.k, i, r.t, r.s, w.root && !(strstr(w.name, "_x87") && w.fmtId != 3));
    XR x = j.X(c.x), y = j.X(c.y), e, v = j.X(r.r[i]);
    if (x.k || y.k) continue;
    if (c.f >= PR_TR) {
      bool up = (c.f - PR_TR) & 1; int o = OP_exp + (c.f - PR_TR) / 2;
      std::string what = std::string(fn[(c.f - PR_TR) / 2]) + (up ? "_up(" : "_down(") + sx(x) + ")";
      if (!w.libm) { check(i, up ? 1 : -1, libX(f, o, x, up), what); continue; }
      M a(200), lo(200), hi(200);
      setM(a, x, MPFR_RNDN);
      libf(o)(lo, a, MPFR_RNDD); libf(o)(hi, a, MPFR_RNDU);
      if (cutsOff(lo, hi, v, !up, w.libm)) { char *s = nullptr; mpfr_asprintf(&s, "%.25Rg", lo.x); std::string ss = s; mpfr_free_str(s); j.add("C16", "call " + std::to_string(i + 1) + " of " + j.gotS() + ": " + what + " is not " + (up ? "an upper" : "a lower") + " bound of " + ss + " for " + j.operands()); }
      continue;
    }
    int dir = c.f == PR_MED ? 0 : (c.f < PR_MED ? c.f & 1 : (c.f - PR_INTD) & 1) ? 1 : -1;
    std::string what = std::string(pn[c.f]) + "(" + sx(x) + (c.f < PR_INTD ? "," + sx(y) : "") + ")";
    switch (c.f) {
      case PR_ADDD: case PR_ADDU: check(i, dir, addX(x, y), what); break;
      case PR_SUBD: case PR_SUBU: check(i, dir, subX(x, y), what); break;
      case PR_MULD: case PR_MULU: check(i, dir, mulX(x, y), what); break;
      case PR_DIVD: case PR_DIVU: divX(x, y, e); check(i, dir, e, what); break;
      case PR_INTD: case PR_INTU: e = intOf(x, dir); if (v.k == 2 || cmpX(v, e)) bad(i, what, e); break;
      case PR_SQRTD: case PR_SQRTU: e = sqrtX(f, x, dir > 0); if (v.k == 2 || cmpX(v, e)) bad(i, what, e); break;
      case PR_MED: {
        XR m = addX(x, y);
        if (!f.rat && (roundX(f, m, false).k || roundX(f, m, true).k)) break;   // the sum overflows
        m.q /= 2; check(i, 0, m, what);
      } break;
    }
  }
}

void judge(const WorldInfo &w, const Fmt &f, const Rec &r, std::vector<Issue> &out) {
  J j{w, f, r, out, r.op < OP_COUNT ? opInfo[r.op].name : "block"};
  j.run();
}

std::string showRec(const WorldInfo &w, const Rec &r) {
  Fmt f = {0, 0, 0, w.rat, true}; std::vector<Issue> dummy;
  J j{w, f, r, dummy, r.op < OP_COUNT ? opInfo[r.op].name : "block"};
  static const char *kn[] = {"op", "begin", "end", "mode", "loadi", "loadt", "nop", "warm"};
  char b[256];
  std::string s;
  snprintf(b, sizeof b, "task %d step %d %s", r.task, r.step, r.kind == SK_OP ? opInfo[r.op].name : kn[r.kind]); s = b;
  if (r.kind == SK_OP) { s += r.form ? " (unprotected) " : " "; if (r.nestOf >= 0) s += "(nested) "; s += j.operands() + " -> " + j.gotS(); }
  snprintf(b, sizeof b, " mode %d->%d points %u/%u%s", r.mode0, r.mode1, r.npt, r.nthr, r.fired ? " FAULT" : ""); s += b;
  return s;
}
}
