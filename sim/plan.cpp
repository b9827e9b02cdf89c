#include "plan.hpp"
#include "engine.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdlib>
#include <sstream>
#include <algorithm>
#include <climits>

namespace dst {

uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xd6e8feb86659fd93ull) ^ (b >> 31)); r.next(); return r.next(); }

// ------------------------------------------------------------ values
static long double ipow2(long e) { return ldexpl(1.0L, (int)e); }
static long double truncTo(const Fmt &f, long double x) {   // towards zero into the format
  if (x == 0 || x != x || std::isinf(x)) return x;
  int e; frexpl(x, &e); long E = e - 1;
  long q = E - f.p + 1; if (q < f.emin - f.p + 1) q = f.emin - f.p + 1;
  long double m = truncl(ldexpl(x, (int)-q));
  if (E > f.emax) { m = ldexpl(1, f.p) - 1; q = f.emax - f.p + 1; return x < 0 ? -ldexpl(m, (int)q) : ldexpl(m, (int)q); }
  return ldexpl(m, (int)q);
}
static long double maxOf(const Fmt &f) { return f.p == 64 ? ldexpl((long double)UINT64_MAX, (int)(f.emax - 63)) : ldexpl(ldexpl(1, f.p) - 1, (int)(f.emax - f.p + 1)); }
static long double nextUp(const Fmt &f, long double x) {
  if (x == 0) return ipow2(f.emin - f.p + 1);
  if (std::isinf(x) || x != x) return x;
  int e; frexpl(x, &e); long E = e - 1; long q = E - f.p + 1; if (q < f.emin - f.p + 1) q = f.emin - f.p + 1;
  long double y = x + ldexpl(1, (int)q);
  if (x < 0 && ldexpl(fabsl(x), (int)-E) == 1.0L && E > f.emin) y = x + ldexpl(1, (int)q - 1);
  if (fabsl(y) > maxOf(f)) return x;
  return truncTo(f, y);
}
struct Gen {
  Rng &g; Fmt f; bool trig, emptyOk = false; double reuse = 0, infs = 0; std::vector<NumV> pool;
  long double mant() { // in [1,2)
    long double m = 1;
    int style = g.below(4);
    if (style == 0) return 1;
    if (style == 1) { m += ldexpl((long double)g.below(8), -3); return m; }
    if (style == 2) { int b = g.range(1, std::min(f.p - 1, 20)); return 2 - ldexpl(1, -b); }
    uint64_t r = g.next(); return 1 + ldexpl((long double)(r >> 1), -63);
  }
  long double posScalar() {
    int c = g.below(20);
    if (c < 6) return truncTo(f, ldexpl(mant(), g.range(-3, 3)));
    if (c < 9) return truncTo(f, (long double)g.range(1, 12));
    if (c < 11) return truncTo(f, ldexpl(mant(), g.range(-12, 12)));
    if (c < 13) { long lo = f.emin - f.p + 1, hi = f.emax; return truncTo(f, ldexpl(mant(), (int)(lo + (long)(g.next() % (uint64_t)(hi - lo + 1))))); }
    switch (g.below(10)) {
      case 0: return ipow2(f.emin - f.p + 1);
      case 1: return ipow2(f.emin);
      case 2: return maxOf(f);
      case 3: return 1;
      case 4: return nextUp(f, 1);
      case 5: return truncTo(f, 1 - ldexpl(1, -f.p));
      case 6: return truncTo(f, ipow2(f.emax));
      case 7: { // around multiples of pi/2
        static const long double h = 1.57079632679489661923L;
        long double x = truncTo(f, h * g.range(1, 16)); return g.p(0.5) ? nextUp(f, x) : x; }
      case 8: return truncTo(f, ipow2(f.emin) * g.range(1, 9));
      default: return truncTo(f, maxOf(f) / g.range(1, 9));
    }
  }
  NumV scalar() {
    if (!pool.empty() && reuse > 0 && g.p(reuse)) return pool[g.below(pool.size())];
    NumV v = fresh();
    if (pool.size() < 8) pool.push_back(v); else if (g.p(0.2)) pool[g.below(8)] = v;
    return v;
  }
  NumV fresh() {
    if (f.rat) {
      int c = g.below(10); int64_t n, d;
      if (c < 6) { n = g.range(-12, 12); d = g.range(1, 6); }
      else if (c < 8) { n = g.range(-200000, 200000); d = g.range(1, 5000); }
      else if (c < 9) { n = g.range(-1, 1); d = 1; }
      else { n = (int64_t)(g.next() % ((uint64_t)1 << 33)) - ((int64_t)1 << 32); d = 1 + (int64_t)(g.next() % ((uint64_t)1 << 28)); }
      int64_t a = n < 0 ? -n : n, b = d; while (b) { int64_t t = a % b; a = b; b = t; }
      if (a > 1) { n /= a; d /= a; }
      if (n == 0) d = 1;
      return mkq(n, d);
    }
    if (g.p(0.08)) return mkf(g.p(0.3) ? -0.0L : 0.0L);
    long double x = posScalar();
    if (trig && fabsl(x) > 64 && !g.p(0.15)) x = truncTo(f, ldexpl(mant(), g.range(-4, 5)));
    return mkf(g.p(0.5) ? -x : x);
  }
  bool lt(const NumV &a, const NumV &b) { return f.rat ? (__int128)a.n * b.d < (__int128)b.n * a.d : a.f < b.f; }
  bool tame = false;   // numbers of moderate size only: the steps of nth_root grow with the exponent
  NumV tamed(NumV v) {
    if (f.rat || v.f == 0 || !std::isfinite(v.f)) return v;
    int e; long double m = frexpl(v.f, &e); if (e > -60 && e < 60) return v;
    return mkf(truncTo(f, ldexpl(m, e % 60)));
  }
  void interval(NumV &l, NumV &u) {
    l = scalar(); u = scalar();
    if (tame) { l = tamed(l); u = tamed(u); }
    int c = g.below(24);
    NumV zero = f.rat ? mkq(0, 1) : mkf(g.p(0.3) ? -0.0L : 0.0L);
    if (c < 3) u = l;
    else if (c == 3) l = zero;
    else if (c == 4) u = zero;
    else if (c == 5 && !f.rat) u = mkf(nextUp(f, l.f));
    else if (c == 6 && !f.rat) u = mkf(-l.f);
    else if (c == 7) { l = zero; u = zero; }
    else if (c == 8 && trig && !f.rat) u = mkf(truncTo(f, l.f + 1.0L * g.range(1, 8)));
    else if (c == 9 && !f.rat) u = mkf(truncTo(f, l.f + ldexpl(mant(), g.range(-3, 3))));
    if (lt(u, l)) std::swap(l, u);
    if (!f.rat && (c == 10 || (infs > 0 && g.p(infs)))) { if (g.p(0.5)) l = mkf(-INFINITY); else u = mkf(INFINITY); if (g.p(0.2)) { l = mkf(-INFINITY); u = mkf(INFINITY); } }
  }
};

// ------------------------------------------------------------ profiles
struct Prof {
  double mode = 0.06, begin = 0.05, endp = 0.12, reload = 0.55, form1 = 0.6, nan = 0, empty = 0, unwind = 0.15;
  int steps0 = 10, steps1 = 30, tasks0 = 1, tasks1 = 1;
  double throws = 0.4; int maxThrow = 3;
  double nests = 0, share = 0; int maxNest = 3;
  bool sw = false, stream = false;
  double inplace = 1, plainGrp[128];
  double simW = 1, hwW = 0.35, ratW = 0.5;
  double reuse = 0.08, infs = 0, infPt = 0, sib = 0.1;
  bool needPoints = false, simOnly = false, fpuOnly = false, transcOnly = false;
  Prof() { for (double &x : plainGrp) x = 1; }
};
static Prof profile(const std::string &p) {
  Prof q;
  auto G = [&](const char *s, double v) { for (; *s; ++s) q.plainGrp[(int)*s] = v; };
  G("o", 0.15); G("l", 0.3); G("q", 0.25); G("s", 0.6); G("t", 1.2); G("e", 1.5); G("f", 1.5); G("c", 0.8); G("p", 0.5);
  if (p == "C01") { q.mode = 0.15; q.begin = 0.1; q.throws = 0.6; q.fpuOnly = true; q.nan = 0.05; q.empty = 0.05; q.hwW = 0.5; G("q", 0.15); }
  else if (p == "C02") { q.mode = 0.08; q.throws = 0.25; q.hwW = 0.8; G("q", 0); G("o", 0); G("p", 0); G("l", 0.1); G("t", 0.25); G("f", 0.4); G("a", 2); G("e", 2); G("d", 2.5); G("u", 1); q.steps0 = 20; q.steps1 = 45; }
  else if (p == "C03" || p == "C18") { q.share = p == "C18" ? 0.5 : 0.15; q.tasks0 = 2; q.tasks1 = 3; q.steps0 = 3; q.steps1 = 12; q.sw = true; q.throws = 0.3; q.mode = 0.12; q.begin = 0.1; q.unwind = 0.1; q.needPoints = true; q.nan = 0.02; q.empty = 0.02; q.hwW = 1.2; }
  else if (p == "C04") { q.begin = 0.3; q.endp = 0.06; q.form1 = 0.85; q.throws = 0.7; q.unwind = 0.05; q.mode = 0.1; q.hwW = 0.6; q.fpuOnly = true; q.nan = 0.02; q.empty = 0.02; G("q", 0.1); }
  else if (p == "C05") { q.inplace = 6; q.throws = 1; q.maxThrow = 6; q.nan = 0.04; q.empty = 0.04; q.needPoints = true; q.hwW = 0.15; }
  else if (p == "C06") { q.throws = 1; q.maxThrow = 8; q.nan = 0.04; q.empty = 0.04; G("q", 0.7); G("o", 0.3); G("l", 0.8); q.hwW = 0.15; q.ratW = 0.6; }
  else if (p == "C07") { G("p", 0); q.nan = 0.35; q.empty = 0.3; q.throws = 0.25; G("q", 1); G("s", 1.5); G("l", 0.3); q.mode = 0.04; q.hwW = 0.4; }
  else if (p == "C08") { q.nests = 1; q.maxNest = 4; q.throws = 0.15; q.steps0 = 4; q.steps1 = 14; q.begin = 0.1; q.mode = 0.1; q.needPoints = true; q.hwW = 1.0; q.nan = 0.02; q.empty = 0.02; G("t", 2); G("f", 3); G("q", 0.12); G("s", 0.5); G("c", 0.6); G("d", 1.5); G("e", 2); }
  else if (p == "C09") { G("o", 60); G("p", 0); q.stream = true; q.throws = 0.15; q.empty = 0.15; q.mode = 0.08; q.hwW = 0.6; q.begin = 0.02; q.reload = 0.8; }
  else if (p == "C10") { G("acduesqop", 0); G("r", 0); G("l", 0.2); G("t", 3); G("f", 3); q.mode = 0.1; q.begin = 0.08; q.throws = 0.25; q.transcOnly = true; q.hwW = 0.6; q.ratW = 0.25; q.reload = 0.9; q.steps0 = 20; q.steps1 = 45; q.inplace = 0; }
  else if (p == "C11") { G("r", 8); G("e", 3); G("t", 2); G("f", 2); G("q", 0.1); G("s", 0.4); q.throws = 0.3; q.nests = 0.1; q.hwW = 0.6; q.reload = 0.8; q.transcOnly = false; }
  else if (p == "C12") { G("acdeurtfolp", 0.08); G("p", 0); G("c", 0.15); G("q", 10); G("s", 0.3); q.reuse = 0.35; q.infs = 0.05; q.infPt = 0.04; q.mode = 0.06; q.throws = 0.3; q.hwW = 0.5; q.reload = 0.7; q.inplace = 1; q.nan = 0.02; q.empty = 0.03; q.steps0 = 25; q.steps1 = 60; }
  else if (p == "C13") { G("acdeurtfolp", 0.08); G("p", 0); G("c", 0.15); G("q", 0.1); G("s", 10); q.reuse = 0.35; q.mode = 0.06; q.throws = 0.3; q.hwW = 0.5; q.reload = 0.7; q.nan = 0.02; q.empty = 0.03; q.steps0 = 25; q.steps1 = 60; }
  else if (p == "C15") { q.nan = 0.15; q.empty = 0.12; q.throws = 0.6; q.maxThrow = 4; q.nests = 0.15; q.unwind = 0.15; q.hwW = 0.6; G("q", 0); G("p", 0); G("o", 0); G("l", 0.3); G("t", 1.2); G("u", 1.2); q.inplace = 2; q.steps0 = 20; q.steps1 = 45; q.infs = 0.08; }
  else if (p == "C16") { q.mode = 0.12; q.begin = 0.1; q.throws = 0.7; q.maxThrow = 5; q.nests = 0.15; q.hwW = 0.9; G("acdeurtfolqs", 0.1); G("c", 0.25); G("p", 12); q.reload = 0.9; q.steps0 = 15; q.steps1 = 40; q.ratW = 0.3; }
  else if (p == "C17") { q.simOnly = true; q.ratW = 0.6; q.throws = 0.75; q.maxThrow = 5; q.nests = 0.15; q.tasks1 = 2; q.sw = true; q.inplace = 2; q.nan = 0.05; q.empty = 0.06; q.infs = 0.05; q.begin = 0.08; q.unwind = 0.2; q.steps0 = 12; q.steps1 = 40; G("q", 0.8); G("s", 1); G("l", 1); G("o", 0.6); G("p", 1); G("e", 2); q.sib = 0.2; }
  else if (p == "C14") { q.mode = 0.2; q.begin = 0.08; q.throws = 0.5; q.unwind = 0.2; q.fpuOnly = true; q.hwW = 0.6; q.nan = 0.02; q.empty = 0.02; q.sib = 0.3; q.steps0 = 12; q.steps1 = 42; G("q", 0.1); G("f", 2); }
  return q;
}

static bool emptyWorld(int chk) { return chk == CK_BASE || chk == CK_CATCHBASE || chk == CK_NONAN; }
static bool nanWorld(const WorldInfo &w) { return !w.rat && (w.chk == CK_BASE || w.chk == CK_NOEMPTY || w.chk == CK_CATCH || w.chk == CK_CATCHBASE); }

// the weight of the heaviest of its groups; a group switched off switches its operations off
static double opWeight(const Prof &q, int op) {
  double w = 0;
  for (const char *c = opInfo[op].grp; *c; ++c) {
    if (*c == 'x' || *c == 'i') continue;
    double g = q.plainGrp[(int)*c];
    if (g == 0) return 0;
    w = std::max(w, g);
  }
  if (opHas(op, 'm')) w *= q.inplace;
  if (op == OP_s_empty || op == OP_s_whole) w *= 0.3;
  return w;
}

static NumV foreign(Gen &gen, const WorldInfo &w, int ut, bool nanOk) {
  Rng &g = gen.g;
  long lim = g.p(0.6) ? 20 : INT_MAX;
  switch (ut) {
    case U_INT: { long v = (long)(g.next() % (2 * (uint64_t)lim + 1)) - lim; if (g.p(0.03)) v = INT_MIN; if (w.rat && v < -2000000000) v = -3; return w.rat ? mkq(v, 1) : mkf(v); }
    case U_UINT: { uint64_t v = g.next() % (lim == 20 ? 20 : (uint64_t)UINT_MAX + 1); if (g.p(0.03)) v = UINT_MAX; return w.rat ? mkq((int64_t)v, 1) : mkf(v); }
    case U_LL: { int64_t v = (int64_t)(g.next() >> g.range(1, 60)); if (w.rat) v >>= 12; if (g.p(0.5)) v = -v; return w.rat ? mkq(v, 1) : mkf(v); }
    case U_FLOAT: { Gen h{g, Fmt{24, -126, 127, false, true}, false}; if (nanOk && g.p(0.1)) return mkf(NAN); return g.p(0.5) ? mkf(truncTo(h.f, gen.scalar().f)) : h.scalar(); }
    case U_DOUBLE: { Gen h{g, Fmt{53, -1022, 1023, false, true}, false}; if (nanOk && g.p(0.1)) return mkf(NAN); return g.p(0.5) ? mkf(truncTo(h.f, gen.scalar().f)) : h.scalar(); }
    default: { Gen h{g, Fmt{64, -16382, 16383, false, true}, false}; if (nanOk && g.p(0.1)) return mkf(NAN); return g.p(0.5) ? gen.scalar() : h.scalar(); }
  }
}

static void opArgs(Gen &gen, const WorldInfo &w, Step &s, bool nanOk) {
  Rng &g = gen.g;
  switch (s.op) {
    case OP_extint: s.k = (64 + (g.p(0.7) ? g.range(-9, 20) : g.range(-64, 63))) * 8 + g.below(8); break;
    case OP_pow: s.k = g.p(0.02) ? (g.p(0.5) ? INT_MIN : INT_MAX) : g.p(0.7) ? g.range(-6, 8) : g.p(0.8) ? g.range(-40, 40) : w.fmtId == 0 || w.rat ? g.range(-200, 200) : g.p(0.6) ? g.range(-3000, 3000) : g.range(-(1 << 30), 1 << 30) >> g.below(18); break;
    case OP_nth_root: s.k = g.p(0.85) ? g.range(1, 9) : g.p(0.6) ? g.range(10, 40) : g.p(0.8) ? g.range(41, 2000) : g.p(0.7) ? g.range(2001, 1 << 26) : INT_MAX; break;
    case OP_out: s.k = (g.p(0.4) ? g.below(8) : 0) | (g.p(0.25) ? 8 : 0) | (g.p(0.2) ? 16 : 0) | (g.p(0.2) ? 32 : 0) | (g.p(0.2) ? 64 : 0) | (g.p(0.07) ? 128 : 0) | (g.p(0.07) ? 256 : 0) | (g.p(0.15) ? 512 : 0) | (g.p(0.25) ? 1024 : 0); break;
    case OP_rnd: case OP_rndt: case OP_rctl: { // sequences of four
      int base = s.op == OP_rnd ? PR_TR : s.op == OP_rndt ? PR_N : 12, same = g.p(0.4) ? (int)g.below(base) & ~1 : -1; s.k = 0;
      for (int i = 0; i < 4; ++i) { int c = same >= 0 && g.p(0.8) ? std::min(base - 1, same + (int)g.below(2)) : (int)g.below(base); s.k = s.k * base + c; }
    } break;
    case OP_rndc: s.k = g.below(16); break;
    default: s.k = g.below(6);
  }
  s.ut = g.below(6);
  // the x87 configurations' compiler moves narrowing conversions across mode changes: not asked for there
  if (!strncmp(w.name, "flt_x87", 7)) { int t[] = {U_INT, U_UINT, U_FLOAT, U_LL}; s.ut = t[s.ut % 4]; }
  else if (!strncmp(w.name, "dbl_x87", 7) && s.ut == U_LDBL) s.ut = U_DOUBLE;
  if (opHas(s.op, 'U')) {
    int ut = s.ut; if (w.rat) { int t[] = {U_INT, U_UINT, U_LL}; s.ut = ut = t[g.below(3)]; }
    s.x = foreign(gen, w, ut, nanOk); if (opHas(s.op, 'V')) { s.y = foreign(gen, w, ut, nanOk); if (s.x.f > s.y.f && g.p(0.9)) std::swap(s.x, s.y); }
  }
  if (opHas(s.op, 'O')) s.emp = gen.emptyOk && g.p(0.1);
  if (opHas(s.op, 'W')) {
    Fmt wf = w.rat ? gen.f : w.fmtId == 1 || w.fmtId == 3 || w.fmtId == 0 ? Fmt{53, -1022, 1023, false, true} : Fmt{64, -16382, 16383, false, true};
    if (!strcmp(w.name, "dbl_opp_libm") || strstr(w.name, "_x87")) wf = Fmt{24, -126, 127, false, true};
    if (w.rat) { int64_t a = g.range(-50, 50), b = g.range(-50, 50); s.x = mkq(std::min(a, b), 1); s.y = mkq(std::max(a, b), 1); }
    else {
      Gen h{g, wf, false};
      if (g.p(0.5)) { h.interval(s.x, s.y); }
      else { s.x = mkf(truncTo(wf, gen.scalar().f)); s.y = mkf(truncTo(wf, s.x.f + ldexpl(h.mant(), g.range(-3, 3)))); }
      if (std::isinf(s.x.f) || std::isinf(s.y.f)) { s.x = mkf(-1); s.y = mkf(1.25L); }
    }
    s.emp = gen.emptyOk && g.p(0.1);
  }
}

static void loadI(Gen &gen, const WorldInfo &w, const Prof &q, Step &s) {
  s.kind = SK_LOADI; s.d = gen.g.p(0.8) ? gen.g.below(4) : gen.g.below(NREG);
  gen.interval(s.x, s.y);
  if (q.infPt > 0 && !w.rat && gen.g.p(q.infPt)) s.x = s.y = mkf(gen.g.p(0.5) ? INFINITY : -INFINITY);
  s.emp = emptyWorld(w.chk) && gen.g.p(q.empty);
}
static void loadT(Gen &gen, const WorldInfo &w, const Prof &q, Step &s) {
  s.kind = SK_LOADT; s.t = gen.g.below(NTREG); s.x = gen.scalar();
  if (nanWorld(w) && gen.g.p(q.nan)) s.x = mkf(NAN);
  else if (q.infPt > 0 && !w.rat && gen.g.p(q.infPt)) s.x = mkf(gen.g.p(0.5) ? INFINITY : -INFINITY);
}
static int modeVal(Rng &g) { return g.below(4); }

Plan genPlan(const std::string &prop, uint64_t seed, History *scratch) {
  Rng g(seed);
  Prof q = profile(prop);
  Plan p; p.seed = seed;
  // configuration
  std::vector<double> ww; double tot = 0;
  static const char *onlyWorlds = getenv("DST_WORLD");
  for (auto *w : worlds) {
    const WorldInfo &i = w->info;
    double x = i.rat ? q.ratW : i.sim ? q.simW : q.hwW;
    if (q.fpuOnly && !i.fpumode) x = 0;
    if (q.transcOnly && !i.transc && !i.rat) x *= 0.35;
    if ((prop == "C03" && !i.mem && !i.sim) || (prop == "C18" && !i.mem)) x = 0;   // accesses are watched in the instrumented configurations
    if (q.simOnly && !i.sim) x = 0;
    if (q.needPoints && !i.sim && !i.mem && prop != "C05") x *= 0.3;
    if (onlyWorlds && !strstr(onlyWorlds, i.name)) x = 0;   // DST_WORLD=name,name: for exploring by hand
    ww.push_back(x); tot += x;
  }
  double r = (g.next() >> 11) * 0x1p-53 * tot; size_t wi = 0;
  while (wi + 1 < ww.size() && r >= ww[wi]) r -= ww[wi++];
  while (ww[wi] == 0) wi = (wi + 1) % ww.size();
  p.world = (int)wi;
  World *W = worlds[wi]; const WorldInfo &w = W->info;
  p.toy.p = g.range(3, 12); p.toy.emin = -g.range(1, 18); p.toy.emax = g.range(p.toy.p + 2, 18 < p.toy.p + 2 ? p.toy.p + 2 : 18);
  p.toy.ext = g.p(0.4) ? g.range(1, 4) : 0; p.toy.pimode = g.p(0.6);
  Fmt f = worldFmt(w, p.toy);
  bool nanOk = nanWorld(w) && q.nan > 0;
  // swarm: subset of operations
  std::vector<int> ops; std::vector<double> ow; double ot = 0;
  for (int i = 0; i < OP_COUNT; ++i) { double x = W->supports(i) ? opWeight(q, i) : 0; if (x > 0) { ops.push_back(i); ow.push_back(x); ot += x; } }
  auto pick = [&]() { double z = (g.next() >> 11) * 0x1p-53 * ot; size_t i = 0; while (i + 1 < ops.size() && z >= ow[i]) z -= ow[i++]; return ops[i]; };
  if (g.p(0.45)) {
    int n = g.range(1, 7); std::vector<int> sub; for (int i = 0; i < n; ++i) sub.push_back(pick());
    ops = sub; ow.assign(n, 1); ot = n;
  }
  Gen gen{g, f, false}; gen.reuse = q.reuse; gen.infs = q.infs; gen.emptyOk = q.empty > 0;
  int nt = g.range(q.tasks0, q.tasks1);
  std::vector<std::pair<int, int>> again;
  int focus = g.below(NREG);          // the operand most of the sharing steps read
  // calls all threads make again and again: what one of them might leave behind for the others
  std::vector<std::vector<Step>> common;
  if (nt > 1 && g.p(0.4)) {
    int op = pick(); for (int i = 0; i < 5 && opGrp(op, 'f'); ++i) op = pick();
    int n = opGrp(op, 'f') ? 0 : g.range(1, 3);
    for (int i = 0; i < n; ++i) {
      std::vector<Step> c; Step s; s.kind = SK_OP; s.op = op;
      gen.trig = opGrp(op, 't'); gen.tame = op == OP_nth_root && f.emax > 200;
      s.a = 0; s.b = g.p(0.1) ? 0 : 1; s.d = opHas(op, 'm') ? 2 : 4; s.t = 0; s.s = 1;
      opArgs(gen, w, s, nanOk);
      if (gen.tame && s.k > 24) s.k = g.range(2, 24);
      if (!common.empty() && g.p(0.6)) s.k = common[0].back().k;
      auto li = [&](int d) { Step l; loadI(gen, w, q, l); l.d = d; c.push_back(l); };
      auto lt = [&](int t) { Step l; loadT(gen, w, q, l); l.t = t; c.push_back(l); };
      if (opHas(op, 'A')) li(0);
      if ((opHas(op, 'B') || opHas(op, 'O')) && s.b == 1) li(1);
      if (opHas(op, 'm')) li(2);
      if (opHas(op, 'T')) lt(0);
      if (opHas(op, 'S')) lt(1);
      gen.trig = gen.tame = false;
      if (op == OP_bisect && !w.rat && (std::isinf(c[0].x.f) || std::isinf(c[0].y.f))) continue;
      c.push_back(s); common.push_back(c);
    }
  }
  for (int t = 0; t < nt; ++t) {
    std::vector<Step> P;
    struct Lit { bool known = false; NumV l, u; } ri[NREG], rt[NTREG]; // literals known to be in the registers
    auto push = [&](const Step &s) {
      P.push_back(s);
      if (s.kind == SK_LOADI) { ri[s.d].known = !s.emp; ri[s.d].l = s.x; ri[s.d].u = s.y; }
      else if (s.kind == SK_LOADT) { rt[s.t].known = s.x.f == s.x.f; rt[s.t].l = s.x; }
      else if (s.kind == SK_OP || s.kind == SK_WARM) { if (opHas(s.op, 'm') || opInfo[s.op].res == 'I' || opInfo[s.op].res == 'P') ri[s.d].known = false; if (opInfo[s.op].res == 'T') rt[s.t].known = false; }
    };
    if (g.p(0.7) && w.fpumode) { Step s; s.kind = SK_MODE; s.k = modeVal(g); push(s); }
    for (int i = 0; i < 4; ++i) { Step s; loadI(gen, w, q, s); s.d = i; push(s); }
    for (int i = 0; i < 2; ++i) { Step s; loadT(gen, w, q, s); s.t = i; push(s); }
    if (g.p(0.03)) for (int n = g.range(1, 3); n > 0; --n) {
      Step s; s.kind = SK_WARM; s.op = pick(); s.a = g.below(4); s.b = g.below(4); s.d = g.below(4); s.t = g.below(2); s.s = 1 - s.t;
      if (s.op == OP_nth_root && f.emax > 200) s.op = OP_sqrt;
      bool dear = opGrp(s.op, 'r') || opGrp(s.op, 't') || s.op == OP_pow || s.op == OP_out;
      s.k = g.range(10, g.p(0.5) ? 60 : dear ? 150 : 1200); s.ut = g.range(1, 6);
      push(s);
    }
    int steps = g.range(q.steps0, q.steps1), depth = 0;
    double form1 = g.p(0.3) ? 1.0 : q.form1;
    for (int i = 0; i < steps; ++i) {
      double z = (g.next() >> 11) * 0x1p-53;
      if (depth == 0 && w.fpumode && z < q.mode) { Step s; s.kind = SK_MODE; s.k = modeVal(g); push(s); continue; }
      if (depth < 3 && z > 1 - q.begin) { Step s; s.kind = SK_BEGIN; push(s); ++depth; continue; }
      if (depth > 0 && z > 1 - q.begin - q.endp) { Step s; s.kind = SK_END; push(s); --depth; continue; }
      if (!common.empty() && g.p(0.4)) {
        auto c = common[g.below(common.size())]; c.back().form = depth > 0 && g.p(form1); c.back().unwind = g.p(q.unwind);
        for (auto &x : c) push(x);
        continue;
      }
      Step s; s.kind = SK_OP; s.op = pick();
      gen.trig = opGrp(s.op, 't');
      s.form = depth > 0 && g.p(form1);
      s.a = g.p(0.85) ? g.below(4) : g.below(NREG); s.b = g.p(0.85) ? g.below(4) : g.below(NREG);
      s.d = opHas(s.op, 'm') ? g.below(4) : g.p(0.75) ? 4 + g.below(2) : g.below(NREG);
      if (opHas(s.op, 'm') && g.p(0.1)) s.b = s.d;
      if (g.p(0.08)) s.b = s.a;
      s.t = g.below(2); s.s = g.p(0.6) ? 1 - s.t : g.below(NTREG);
      opArgs(gen, w, s, nanOk);
      s.unwind = g.p(q.unwind);
      if (q.share > 0 && g.p(q.share)) { s.share = g.range(1, 7); if (g.p(0.6)) s.a = focus; }
      gen.tame = s.op == OP_nth_root && f.emax > 200 && !g.p(prop == "C11" ? 0.25 : f.emax > 2000 ? 0.04 : 0.15);
      if (gen.tame && s.k > 40 && !g.p(prop == "C11" ? 0.5 : 0.1)) s.k = g.range(2, 24);
      bool tame = gen.tame;
      if (g.p(q.reload) || gen.tame) { // fresh operand
        Step l;
        if (opHas(s.op, 'T') && g.p(0.5)) { loadT(gen, w, q, l); l.t = s.t; }
        else if (opHas(s.op, 'm') && g.p(0.5)) { loadI(gen, w, q, l); l.d = s.d; }
        else { loadI(gen, w, q, l); l.d = (opHas(s.op, 'B') || opHas(s.op, 'O')) && g.p(0.5) ? s.b : s.a; }
        if ((s.op == OP_fmod_II || s.op == OP_fmod_IT || s.op == OP_fmod_TI) && g.p(0.9)) { // positive divisor
          Step m; NumV c = gen.scalar(), d = gen.scalar();
          auto ab = [&](NumV v) { if (w.rat) { if (v.n < 0) v.n = -v.n; if (!v.n) v = mkq(1, 1); v.f = fabsl(v.f); } else { v.f = fabsl(v.f); if (v.f == 0) v.f = 1; } return v; };
          c = ab(c); d = ab(d); if (gen.lt(d, c)) std::swap(c, d);
          if (s.op == OP_fmod_IT) { m.kind = SK_LOADT; m.t = s.t; m.x = c; }
          else { m.kind = SK_LOADI; m.d = s.op == OP_fmod_II ? s.b : s.a; m.x = c; m.y = d; }
          push(l); push(m);
          if (!w.rat && g.p(0.4)) { // a dividend around a multiple of the divisor
            Step z; NumV v = mkf(truncTo(f, (g.p(0.6) ? c.f : d.f) * g.range(-9, 40)));
            if (g.p(0.4)) v = g.p(0.5) ? mkf(nextUp(f, v.f)) : mkf(-nextUp(f, -v.f));
            if (s.op == OP_fmod_TI) { z.kind = SK_LOADT; z.t = s.t; z.x = v; }
            else { z.kind = SK_LOADI; z.d = s.a; z.x = z.y = v; if (g.p(0.5)) { NumV e = mkf(truncTo(f, v.f + ldexpl(gen.mant(), g.range(-3, 3)))); if (e.f >= v.f) z.y = e; } }
            if (fabsl(v.f) < INFINITY && !(s.op == OP_fmod_II && s.a == s.b)) push(z);
          }
        } else push(l);
        gen.tame = false;
      }
      push(s);
      if (q.throws > 0 && g.p(0.1)) { // once more: what a caller does when the first attempt failed
        P.back().unwind = 0; again.push_back({t, (int)P.size() - 1});
        if (g.p(0.6)) s.d = P.back().d;
        push(s);
      }
      if (g.p(q.sib)) { // the same operation on nearly the same operands: what the library might remember of the first must not show
        Step m; m.kind = SK_NOP;
        int reg = opHas(s.op, 'm') ? s.d : (opHas(s.op, 'B') || opHas(s.op, 'O')) && g.p(0.5) ? s.b : s.a;
        bool num = opHas(s.op, 'T') && g.p(0.4);
        Lit &c = num ? rt[s.t] : opHas(s.op, 'm') && opHas(s.op, 'B') && s.b != s.d && g.p(0.5) ? ri[reg = s.b] : ri[reg];
        Lit was = ri[reg];
        if (opHas(s.op, 'm') && reg == s.d) { // the left operand as it was
          was.known = false;
          for (size_t j = P.size(); j-- > 0;) if (P[j].kind == SK_LOADI && P[j].d == reg) { was.known = !P[j].emp; was.l = P[j].x; was.u = P[j].y; break; }
        }
        bool pos = (s.op == OP_fmod_II && reg == s.b) || (s.op == OP_fmod_TI && !num) || (s.op == OP_fmod_IT && num);
        auto nudge = [&](NumV v) { if (w.rat) { return g.p(0.5) ? gen.scalar() : v; } return g.p(0.5) ? mkf(nextUp(f, v.f)) : mkf(-nextUp(f, -v.f)); };
        if (num) {
          if (c.known) {
            m.kind = SK_LOADT; m.t = s.t;
            m.x = w.rat || g.p(0.3) ? gen.scalar() : g.p(0.6) ? nudge(c.l) : mkf(-c.l.f);
            if (pos && !(w.rat ? m.x.n > 0 : m.x.f > 0)) m.x = c.l;
          }
        } else if (was.known) {
          m.kind = SK_LOADI; m.d = reg; m.x = was.l; m.y = was.u;
          switch (opGrp(s.op, 'f') && g.p(0.5) ? 5 : g.below(6)) {
            case 0: m.y = gen.scalar(); break;
            case 1: m.x = gen.scalar(); break;
            case 2: m.x = nudge(m.x); break;
            case 3: m.y = nudge(m.y); break;
            case 4: if (!w.rat) { m.x = mkf(-was.u.f); m.y = mkf(-was.l.f); } else std::swap(m.x, m.y); break;
            default: { // moved by the other operand
              NumV o = rt[s.t].l; if (w.rat || !rt[s.t].known || !opHas(s.op, 'T')) o = gen.scalar();
              if (s.op == OP_fmod_II && ri[s.b].known && reg == s.a) o = g.p(0.5) ? ri[s.b].l : ri[s.b].u;
              if (!w.rat) { long double e = g.p(0.5) ? o.f : -o.f; m.x = mkf(truncTo(f, m.x.f + e)); m.y = mkf(truncTo(f, m.y.f + e)); if (g.p(0.5)) m.x = nudge(m.x); if (g.p(0.3)) m.y = m.x; }
            }
          }
          if (tame) { m.x = gen.tamed(m.x); m.y = gen.tamed(m.y); }
          if (m.x.f != m.x.f || m.y.f != m.y.f) { m.x = was.l; m.y = was.u; }
          if (!w.rat && (m.x.f == INFINITY || m.y.f == -INFINITY)) { m.x = was.l; m.y = was.u; }
          if (gen.lt(m.y, m.x)) std::swap(m.x, m.y);
          if (pos && !(w.rat ? m.x.n > 0 : m.x.f > 0)) { m.x = was.l; m.y = was.u; }
          if (s.op == OP_bisect && !w.rat && (std::isinf(m.x.f) || std::isinf(m.y.f))) { m.x = was.l; m.y = was.u; }
        }
        if (opHas(s.op, 'K') && s.op != OP_out && s.op != OP_extint && !opGrp(s.op, 'p') && !opGrp(s.op, 'q') && g.p(0.4)) { if (s.op == OP_pow) s.k = s.k == INT_MIN ? s.k : -s.k; else if (s.op == OP_nth_root) s.k = s.k < INT_MAX ? s.k + 1 : s.k; }
        if (opHas(s.op, 'm') && reg != s.d && P.back().kind == SK_OP) { // the left operand back
          for (size_t j = P.size(); j-- > 0;) if (P[j].kind == SK_LOADI && P[j].d == s.d) { Step l = P[j]; push(l); break; }
        }
        if (m.kind != SK_NOP) push(m);
        push(s);
      }
    }
    while (depth-- > 0) { Step s; s.kind = SK_END; push(s); }
    p.prog.push_back(P);
  }
  gen.trig = false;
  // the stream device's failures
  for (int t = 0; t < nt; ++t) for (size_t i = 0; i < p.prog[t].size(); ++i) {
    const Step &s = p.prog[t][i];
    if (s.kind == SK_OP && s.op == OP_out && g.p(q.stream ? 0.6 : 0.3)) { Event e; e.task = t; e.step = i; e.kind = EV_STREAM; e.sfail = g.range(0, s.k & 1024 ? 48 : 24); p.ev.push_back(e); }
  }
  bool doThrow = g.p(q.throws), doNest = g.p(q.nests);
  if (!doThrow && !doNest && !q.sw) return p;
  // dry run: how many points does each step have
  runPlan(p, scratch);
  struct Slot { int task, step; uint32_t npt, nthr; int op; };
  std::vector<Slot> sl;
  for (int i = 0; i < scratch->nrec; ++i) { const Rec &c = scratch->rec[i]; if (c.done && c.npt) sl.push_back({c.task, c.step, c.npt, c.nthr, c.op}); }
  std::vector<Slot> th; for (auto &s : sl) if (s.nthr && s.op < OP_COUNT) th.push_back(s);
  if (!th.empty() && doThrow) {
    int n = g.range(1, q.maxThrow);
    for (int i = 0; i < n; ++i) {
      auto *sp = &th[g.below(th.size())];
      if (!again.empty() && g.p(0.35)) { auto q2 = again[g.below(again.size())]; for (auto &x : th) if (x.task == q2.first && x.step == q2.second) sp = &x; }
      auto &s = *sp;
      Event e; e.task = s.task; e.step = s.step; e.kind = EV_THROW; e.xk = g.below(XK_N);
      e.at = g.p(0.2) ? s.nthr - 1 - std::min<uint32_t>(s.nthr - 1, g.below(4)) : g.below(s.nthr);
      p.ev.push_back(e);
    }
  }
  if (!sl.empty() && doNest) {
    int n = g.range(1, q.maxNest); bool storm = g.p(0.2);
    auto target = sl[g.below(sl.size())];
    if (storm) n = g.range(4, 10);
    for (int i = 0; i < n; ++i) {
      auto s = storm ? target : sl[g.below(sl.size())];
      Event e; e.task = s.task; e.step = s.step; e.kind = EV_NEST; e.at = g.below(s.npt);
      e.nest.kind = SK_OP;
      do e.nest.op = g.p(0.4) && s.op < OP_COUNT ? s.op : pick(); while (false);
      gen.trig = opGrp(e.nest.op, 't');
      opArgs(gen, w, e.nest, false); e.nest.emp = 0;
      e.nest.d = 2; e.nest.a = 0; e.nest.b = 1; e.nest.t = 0; e.nest.s = 1;
      gen.interval(e.na[0], e.na[1]); gen.interval(e.nb[0], e.nb[1]); e.nt[0] = gen.scalar(); e.nt[1] = gen.scalar();
      if (g.p(0.25)) { e.nthrow = g.below(g.p(0.5) ? 6 : 40); e.xk = g.below(XK_N); }
      e.tag = i + 1;
      if (g.p(0.25)) { // a computation inside a nested one
        Event c = e; c.tag = 100 + i; c.parent = e.tag; c.at = g.below(g.p(0.5) ? 8 : 60); c.nthrow = -1;
        if (g.p(0.4)) { c.nest.op = pick(); gen.trig = opGrp(c.nest.op, 't'); opArgs(gen, w, c.nest, false); c.nest.emp = 0; }
        gen.interval(c.na[0], c.na[1]); gen.interval(c.nb[0], c.nb[1]);
        if (g.p(0.2)) { c.nthrow = g.below(g.p(0.5) ? 6 : 40); c.xk = g.below(XK_N); }
        p.ev.push_back(c);
      }
      p.ev.push_back(e);
    }
  }
  if (q.sw && !sl.empty()) {
    int style = g.below(3);
    if (style < 2) {
      int n = g.range(1, style ? 40 : 6);
      for (int i = 0; i < n; ++i) { auto &s = sl[g.below(sl.size())]; Event e; e.task = s.task; e.step = s.step; e.kind = EV_SWITCH; e.at = g.below(s.npt); e.target = (s.task + 1 + g.below(nt - 1)) % nt; p.ev.push_back(e); }
    } else { // dense switching inside a few calls of different tasks
      int n = g.range(2, 4);
      for (int i = 0; i < n; ++i) {
        auto &s = sl[g.below(sl.size())]; uint32_t at = g.p(0.5) ? 0 : g.below(s.npt);
        for (int j = 0; j < 12 && at < s.npt; ++j) { Event e; e.task = s.task; e.step = s.step; e.kind = EV_SWITCH; e.at = at; e.target = (s.task + 1 + g.below(nt - 1)) % nt; p.ev.push_back(e); at += 1 + g.below(g.p(0.5) ? 3 : s.npt / 8 + 1); }
      }
    }
  }
  return p;
}

// ------------------------------------------------------------ clean re-execution
static bool emptyV(bool rat, const NumV *v) { return rat ? (__int128)v[0].n * v[1].d > (__int128)v[1].n * v[0].d : !(v[0].f <= v[1].f); }
Plan cleanPlan(const Plan &base, const std::vector<const Rec *> &recs) {
  Plan p; p.seed = base.seed; p.world = base.world; p.toy = base.toy; p.prog.resize(1);
  bool rat = worlds[p.world]->info.rat;
  auto &P = p.prog[0];
  for (const Rec *r : recs) {
    auto li = [&](int d, const NumV *v) { Step s; s.kind = SK_LOADI; s.d = d; s.emp = emptyV(rat, v); s.x = v[0]; s.y = v[1]; P.push_back(s); };
    auto lt = [&](int t, const NumV &v) { Step s; s.kind = SK_LOADT; s.t = t; s.x = v; P.push_back(s); };
    Step o; o.kind = SK_OP; o.op = r->op; o.k = r->k; o.ut = r->ut; o.x = r->x; o.y = r->y; o.emp = r->smode;
    o.d = 0; o.a = 1; o.b = 2; o.t = 0; o.s = 1;
    if (r->alias & 2) o.a = 0;
    if (r->alias & 1) o.b = 0; else if (r->alias & 4) o.b = o.a;
    li(0, r->dst0); li(1, r->a); li(2, r->b); lt(0, r->t); lt(1, r->s);
    if (r->op == OP_out && r->sfail >= 0) { Event e; e.kind = EV_STREAM; e.step = (uint16_t)P.size(); e.sfail = r->sfail; p.ev.push_back(e); }
    P.push_back(o);
  }
  return p;
}

// ------------------------------------------------------------ text form
static const char *skName[] = {"op", "begin", "end", "mode", "loadi", "loadt", "nop", "warm"};
static const char *evName[] = {"switch", "throw", "nest", "stream"};
static std::string nv(const NumV &v) { char b[96]; snprintf(b, sizeof b, "%La:%lld:%lld", v.f, (long long)v.n, (long long)v.d); return b; }
static bool rnv(std::istringstream &is, NumV &v) {
  std::string t; if (!(is >> t)) return false;
  char *e; v.f = strtold(t.c_str(), &e); if (*e != ':') return false;
  v.n = strtoll(e + 1, &e, 10); if (*e != ':') return false;
  v.d = strtoll(e + 1, &e, 10); return !*e;
}
static std::string stepText(const Step &s) {
  std::ostringstream o;
  o << skName[s.kind] << ' ' << (s.kind == SK_OP || s.kind == SK_WARM ? opInfo[s.op].name : "-") << ' ' << (int)s.form << ' ' << (int)s.d << ' ' << (int)s.a << ' ' << (int)s.b << ' ' << (int)s.t << ' ' << (int)s.s
    << ' ' << s.k << ' ' << (int)s.ut << ' ' << (int)s.emp << ' ' << (int)s.unwind << ' ' << (int)s.share << ' ' << nv(s.x) << ' ' << nv(s.y);
  return o.str();
}
static bool stepParse(std::istringstream &is, Step &s) {
  std::string k, o; int form, d, a, b, t, ss, kk, ut, emp, un, sh;
  if (!(is >> k >> o >> form >> d >> a >> b >> t >> ss >> kk >> ut >> emp >> un >> sh) || !rnv(is, s.x) || !rnv(is, s.y)) return false;
  int ki = -1; for (int i = 0; i < 8; ++i) if (k == skName[i]) ki = i;
  if (ki < 0) return false;
  s.kind = ki; if (ki == SK_OP || ki == SK_WARM) { int x = opByName(o); if (x < 0) return false; s.op = x; }
  if (d < 0 || d >= NREG || a < 0 || a >= NREG || b < 0 || b >= NREG || t < 0 || t >= NTREG || ss < 0 || ss >= NTREG) return false;
  s.form = form; s.d = d; s.a = a; s.b = b; s.t = t; s.s = ss; s.k = kk; s.ut = ut; s.emp = emp; s.unwind = un; s.share = sh;
  return true;
}
std::string planText(const Plan &p) {
  std::ostringstream o;
  o << "seed " << p.seed << "\nworld " << worlds[p.world]->info.name << "\ntoy " << p.toy.p << ' ' << p.toy.emin << ' ' << p.toy.emax << ' ' << p.toy.ext << ' ' << p.toy.pimode << '\n';
  for (size_t t = 0; t < p.prog.size(); ++t) { o << "task " << t << '\n'; for (auto &s : p.prog[t]) o << "  step " << stepText(s) << '\n'; }
  for (auto &e : p.ev) {
    o << "event " << evName[e.kind] << ' ' << (int)e.task << ' ' << e.step << ' ' << e.at << ' ' << (int)e.target << ' ' << (int)e.xk << ' ' << e.nthrow << ' ' << e.sfail << ' ' << (int)e.smode << ' ' << e.tag << ' ' << e.parent;
    if (e.kind == EV_NEST) { o << ' ' << stepText(e.nest); for (auto *v : {e.na, e.nb, e.nt}) o << ' ' << nv(v[0]) << ' ' << nv(v[1]); }
    o << '\n';
  }
  return o.str();
}
bool planParse(const std::string &text, Plan &p, std::string &err) {
  std::istringstream in(text); std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string k;
    if (!(is >> k) || k[0] == '#') continue;
    if (k == "seed") is >> p.seed;
    else if (k == "world") { std::string n; is >> n; World *w = worldByName(n); if (!w) { err = "unknown world " + n; return false; } for (size_t i = 0; i < worlds.size(); ++i) if (worlds[i] == w) p.world = (int)i; }
    else if (k == "toy") is >> p.toy.p >> p.toy.emin >> p.toy.emax >> p.toy.ext >> p.toy.pimode;
    else if (k == "task") p.prog.emplace_back();
    else if (k == "step") { Step s; if (p.prog.empty() || !stepParse(is, s)) { err = "bad step: " + line; return false; } p.prog.back().push_back(s); }
    else if (k == "event") {
      Event e; std::string n; int task, step, target, xk, smode; long at;
      if (!(is >> n >> task >> step >> at >> target >> xk >> e.nthrow >> e.sfail >> smode >> e.tag >> e.parent)) { err = "bad event: " + line; return false; }
      int ki = -1; for (int i = 0; i < 4; ++i) if (n == evName[i]) ki = i;
      if (ki < 0) { err = "bad event: " + line; return false; }
      e.kind = ki; e.task = task; e.step = step; e.at = (uint32_t)at; e.target = target; e.xk = xk; e.smode = smode;
      if (ki == EV_NEST) {
        if (!stepParse(is, e.nest)) { err = "bad event: " + line; return false; }
        for (auto *v : {e.na, e.nb, e.nt}) for (int i = 0; i < 2; ++i) if (!rnv(is, v[i])) { err = "bad event: " + line; return false; }
      }
      p.ev.push_back(e);
    }
  }
  if (p.prog.empty()) { err = "no program"; return false; }
  return true;
}
}
