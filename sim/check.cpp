#include "check.hpp"
#include "engine.hpp"
#include "plan.hpp"
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <csignal>
#include <ios>
#include <map>

namespace dst {

// ------------------------------------------------------------ hashing
struct Hash {
  uint64_t h = 0xcbf29ce484222325ull;
  void u(uint64_t v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; }
  void f(const NumV &v) {
    if (v.f != v.f) { u(0x7ff); return; }
    unsigned char b[16]; memset(b, 0, 16); memcpy(b, &v.f, 10); uint64_t x, y; memcpy(&x, b, 8); memcpy(&y, b + 8, 8); u(x); u(y); u(v.n); u(v.d);
  }
};
uint64_t historyHash(const History *h, int end, int sig) {
  Hash s; s.u(end); s.u(sig); s.u(h->nrec); s.u(h->ticks); s.u(h->schedHash);
  for (int i = 0; i < h->nrec; ++i) {
    const Rec &r = h->rec[i];
    s.u(r.task | r.form << 8 | r.kind << 16 | (uint64_t)r.step << 24 | (uint64_t)r.op << 40);
    s.u((uint16_t)r.nestOf | (uint64_t)(uint8_t)r.outcome << 16 | (uint64_t)r.ex << 24 | (uint64_t)(uint32_t)r.exId << 32);
    for (int j = 0; j < 2; ++j) { s.f(r.a[j]); s.f(r.b[j]); s.f(r.dst0[j]); s.f(r.dst1[j]); s.f(r.srcA1[j]); s.f(r.srcB1[j]); s.f(r.srcT1[j]); }
    for (int j = 0; j < 4; ++j) s.f(r.r[j]);
    s.f(r.t); s.f(r.s); s.f(r.x); s.f(r.y); s.u(r.k); s.u(r.rb); s.u(r.mode0); s.u(r.mode1); s.u(r.live); s.u(r.dead); s.u(r.race);
    s.u(r.npt); s.u(r.nthr); s.u(r.narith); s.u(r.fired); s.u(r.nested); s.u(r.switches); s.u(r.tick0); s.u(r.tick1); s.u(r.done);
    s.u(r.siost | r.siost0 << 8 | r.sflagsSame << 16 | (uint64_t)r.slen << 24);
    for (int j = 0; j < r.slen && j < (int)sizeof r.stext; ++j) s.u((unsigned char)r.stext[j]);
  }
  return s.h;
}
std::string historyText(const Plan &p, const History *h) {
  std::string s;
  for (int i = 0; i < h->nrec; ++i) {
    const Rec &r = h->rec[i];
    s += "  "; s += showRec(worlds[p.world]->info, r);
    if (!r.done) s += " (unfinished)";
    char b[120];
    if (r.fired) { snprintf(b, sizeof b, " [%u fault(s) injected]", r.fired); s += b; }
    if (r.nested) { snprintf(b, sizeof b, " [%u nested]", r.nested); s += b; }
    if (r.switches) { snprintf(b, sizeof b, " [%u switches]", r.switches); s += b; }
    s += '\n';
  }
  return s;
}

// ------------------------------------------------------------ comparing two records of the same call
static const NumV *resOf(const Rec &r) { return opHas(r.op, 'm') ? r.dst1 : r.r; }
static std::string diffRec(const WorldInfo &w, const Rec &a, const Rec &b, bool modes) {
  auto sm = [&](int m) { return std::to_string(m); };
  if (a.outcome != b.outcome || (a.outcome == OC_THROW && a.ex != b.ex))
    return std::string(a.outcome == OC_THROW ? exName(a.ex) : "a result") + " instead of " + (b.outcome == OC_THROW ? exName(b.ex) : "a result");
  if (a.kind == SK_OP) {
    char t = opInfo[a.op].res; const NumV *x = resOf(a), *y = resOf(b);
    int n = t == 'P' || t == 'Q' ? 4 : t == 'T' ? 1 : t == 'I' || t == 'N' ? 2 : 0;
    if (a.outcome == OC_THROW && t != 'N') n = 0;
    auto nan2 = [&](const NumV *v, int i) { return t != 'Q' && !w.rat && (i | 1) < n && !(v[i & ~1].f <= v[i | 1].f); };
    for (int i = 0; i < n; ++i) {
      if (sameNum(x[i], y[i])) continue;
      if (n >= 2 && nan2(x, i) && nan2(y, i)) continue;     // two empties are the same whatever their bounds
      return "result [" + show(w, x[0]) + (n > 1 ? "," + show(w, x[1]) : "") + "] instead of [" + show(w, y[0]) + (n > 1 ? "," + show(w, y[1]) : "") + "]";
    }
    if (a.outcome == OC_OK && (t == 'B' || t == '3' || t == 'P' || t == 'Q') && a.rb != b.rb) return "answer " + sm(a.rb) + " instead of " + sm(b.rb);
    if (t == 'S' && a.outcome == OC_OK && (a.slen != b.slen || memcmp(a.stext, b.stext, a.slen))) return "different text";
  }
  if (modes && (a.mode0 != b.mode0 || a.mode1 != b.mode1)) return "rounding mode " + sm(a.mode0) + "->" + sm(a.mode1) + " instead of " + sm(b.mode0) + "->" + sm(b.mode1);
  return "";
}

struct Checker {
  const std::string &prop; const Plan &p; History *h, *h2; Eval &E;
  const WorldInfo &w; Fmt f;
  Checker(const std::string &pr, const Plan &pl, History *a, History *b, Eval &e) : prop(pr), p(pl), h(a), h2(b), E(e), w(worlds[pl.world]->info), f(worldFmt(w, pl.toy)) {}
  static const char *nm(const Rec &r) { return r.kind == SK_OP ? opInfo[r.op].name : r.kind == SK_BEGIN ? "block-begin" : "block-end"; }
  void add(const Rec &r, const std::string &s) {
    E.issues.push_back({prop, std::string(nm(r)) + ": " + s + "  {" + std::string(w.name) + ": " + showRec(w, r) + "}"});
  }
  RunStatus run(const Plan &q, History *hh) { ++E.runs; return runPlan(q, hh); }
  // ends that are failures of the library; false when the run is unusable
  bool endOk(const RunStatus &s, const History *hh, const char *which) {
    if (s.end == RE_OK) return true;
    if (s.end == RE_HARNESS) { E.harness = true; E.harnessNote = hh->note; return false; }
    if (s.end == RE_RUNNING && (s.sig == SIGKILL || s.sig == SIGALRM || s.sig >= 1000)) { E.harness = true; E.harnessNote = "child ended with status " + std::to_string(s.sig); return false; }
    std::string m = s.end == RE_STUCK || s.sig == SIGPROF ? "does not finish" : s.end == RE_TERMINATE ? "ends the program (std::terminate)" : "crashes with signal " + std::to_string(s.sig);
    int op = hh->curOp; std::string on = op >= 0 && op < OP_COUNT ? opInfo[op].name : "block";
    std::string rt; if (hh->nrec > 0) rt = showRec(w, hh->rec[hh->nrec - 1]);
    E.issues.push_back({prop, on + ": " + m + (s.end == RE_STUCK ? std::string(" (") + hh->note + ")" : "") + " in " + which + "  {" + w.name + ": " + rt + "}"});
    return false;
  }
  // a violation of the oracle for one property may be one of a broader property as well
  bool covers(const std::string &pr, const std::string &is, const Rec &r) const {
    int op = r.op;
    if (pr == is) return true;
    if (pr == "C10" && is == "C10t") return true;                      // sharpness
    if (pr == "C02" && is == "C10") return true;                       // elementary functions enclose, too
    if (pr == "C13" && is == "C07" && opGrp(op, 's') && opInfo[op].res == 'B') return true;   // the empty interval is the empty set
    if (pr == "C13" && is == "C07" && (op == OP_hull_II || op == OP_hull_IT || op == OP_hull_TI || op == OP_intersect))
      return w.rat || (r.t.f == r.t.f || op == OP_hull_II || op == OP_intersect);
    return false;
  }
  void judgeAll(const char *pr) {
    std::vector<Issue> v;
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (!r.done || r.kind != SK_OP || r.fired) continue;
      ++E.judged;
      v.clear(); judge(w, f, r, v);
      for (auto &x : v) if (covers(pr, x.prop, r)) E.issues.push_back({prop, x.what + "  {" + w.name + (r.form ? ", unprotected" : "") + ", step " + std::to_string(r.step) + ", mode " + std::to_string(r.mode0) + "}"});
    }
  }
  // calls part of which happens outside the library's control of the rounding mode: decimal
  // conversion by the stream, conversion of an inexact integer at the call site
  bool modeDependent(const Rec &r) const {
    if (r.op == OP_out) return true;
    if (r.op == OP_extint && !f.rat) { long n = (r.k >> 3) - 64; if (n < 0) n = -n; while (n && !(n & 1)) n >>= 1; return n >> f.p || ((r.k >> 3) - 64 != 0 && (f.emax < 7 || f.emin > 0)); }
    return false;
  }
  // compares calls of the main history with clean protected executions: in another order, so that what
  // a call might inherit from the one before it differs, and some alone in a process of their own
  bool cleanRun(const std::vector<const Rec *> &c, const char *what) {
    Plan q = cleanPlan(p, c);
    q.paint = 1;
    RunStatus s = run(q, h2);
    if (!endOk(s, h2, "a clean execution")) return false;
    if (h2->nrec != (int)c.size()) { E.harness = true; E.harnessNote = "clean run out of step"; return false; }
    for (size_t j = 0; j < c.size(); ++j) {
      if (modeDependent(*c[j])) continue;
      ++E.judged;
      std::string d = diffRec(w, *c[j], h2->rec[j], false);
      if (!d.empty()) add(*c[j], std::string(what) + " gives " + d);
    }
    return true;
  }
  void versusClean(const std::vector<const Rec *> &v, const char *what) {
    Rng g(p.seed ^ 0x5bd1e995);
    bool shuffle = g.p(0.5);
    for (size_t i = 0; i < v.size(); i += 100) {
      std::vector<const Rec *> c(v.begin() + i, v.begin() + std::min(v.size(), i + 100));
      std::reverse(c.begin(), c.end());
      if (shuffle) for (size_t j = c.size(); j > 1; --j) std::swap(c[j - 1], c[g.below(j)]);
      if (!cleanRun(c, what)) return;
    }
    if (v.size() > 1 && g.p(0.3)) for (int n = 0; n < 2; ++n) if (!cleanRun({v[g.below(v.size())]}, what)) return;
  }
  void c01() {
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (!r.done || r.kind == SK_BEGIN || (r.kind == SK_OP && r.form)) continue;
      ++E.judged;
      if (r.mode0 != r.mode1) add(r, "rounding mode changed from " + std::to_string(r.mode0) + " to " + std::to_string(r.mode1) + (r.outcome == OC_THROW ? " by a failing " : " by a ") + (r.kind == SK_OP ? "call" : "protected block"));
    }
  }
  void c03() {
    for (size_t t = 0; t < p.prog.size(); ++t) {
      Plan q = p; q.ev.clear();
      for (size_t u = 0; u < q.prog.size(); ++u) if (u != t) q.prog[u].clear();
      for (auto &e : p.ev) if (e.task == t && e.kind != EV_SWITCH) q.ev.push_back(e);
      RunStatus s = run(q, h2);
      if (!endOk(s, h2, "a solo execution")) return;
      int j = 0;
      for (int i = 0; i < h->nrec; ++i) {
        const Rec &r = h->rec[i];
        if (r.task != t) continue;
        while (j < h2->nrec && h2->rec[j].task != t) ++j;
        if (j >= h2->nrec) { add(r, "one call more than when the thread runs alone"); return; }
        const Rec &o = h2->rec[j++];
        ++E.judged;
        if (r.kind != o.kind || r.op != o.op || r.step != o.step) { add(r, "the thread takes another path than alone"); return; }
        if (r.fired != o.fired) return;   // a constant initialised on first use moved the place of the failure: not comparable
        std::string d = diffRec(w, r, o, true);
        if (d.empty() && r.exId != o.exId) d = "another failure";
        if (d.empty() && r.live != o.live) d = "another number of live objects";
        if (!d.empty()) { add(r, "with other threads running: " + d); return; }
      }
    }
  }
  void c04() {
    std::vector<const Rec *> v;
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (r.done && r.kind == SK_OP && !r.fired && r.nestOf < 0 && r.form) v.push_back(&r);
    }
    versusClean(v, "unprotected, in a protected block,");
  }
  void c14() {
    std::vector<const Rec *> v;
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (r.done && r.kind == SK_OP && !r.fired && r.nestOf < 0 && !r.form) v.push_back(&r);
    }
    versusClean(v, "the same call in a fresh program");
  }
  void c05() {
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (!r.done || r.kind != SK_OP) continue;
      ++E.judged;
      auto same = [&](const NumV *x, const NumV *y) { return sameNum(x[0], y[0]) && sameNum(x[1], y[1]); };
      bool m = opHas(r.op, 'm');
      if (!r.asgFired && (r.outcome == OC_THROW || !m) && !same(r.dst0, r.dst1))
        add(r, "left operand was [" + show(w, r.dst0[0]) + "," + show(w, r.dst0[1]) + "], is [" + show(w, r.dst1[0]) + "," + show(w, r.dst1[1]) + "] after the failure");
      if (!(m && (r.alias & 2)) && !same(r.a, r.srcA1) && !(m && (r.alias & 1) && (r.alias & 4))) add(r, "a read-only operand was modified");
      if (!(m && (r.alias & 1)) && !same(r.b, r.srcB1) && !(m && (r.alias & 2) && (r.alias & 4))) add(r, "a read-only operand was modified");
      if (!sameNum(r.t, r.srcT1[0]) || !sameNum(r.s, r.srcT1[1])) add(r, "a read-only number was modified");
    }
  }
  void c06() {
    judgeAll("C06");
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (!r.done) continue;
      bool inj = r.outcome == OC_THROW && r.ex >= EX_CUSTOM && r.ex <= EX_CANCEL;
      if (r.kind == SK_OP) {
        if (r.fired && !inj) add(r, std::string("an injected failure was ") + (r.outcome == OC_OK ? "swallowed" : "replaced by another exception"));
        else if (r.fired && r.exId != r.firstId) add(r, "another failure than the one injected reached the caller");
        else if (r.fired > 1 && !opGrp(r.op, 'p')) add(r, "the operation went on after a failure");
        else if (!r.fired && inj) add(r, "a stale failure reached the caller");
        else if (r.outcome == OC_THROW && (r.ex == EX_UNKNOWN || r.ex == EX_OTHER_STD)) add(r, "an exception of the library's own reached the caller");
      }
      if (r.live != 0) add(r, std::to_string(r.live) + " number object(s) left behind");
    }
  }
  void c08() {
    Plan q = p; q.ev.clear(); bool any = false;
    for (auto &e : p.ev) if (e.kind != EV_NEST) q.ev.push_back(e); else any = true;
    if (!any) return;
    std::vector<const Rec *> nested;
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (r.nestOf < 0 || !r.done) continue;
      if (r.mode0 != r.mode1) add(r, "nested call changed the rounding mode of the interrupted one");
      if (r.live) add(r, "nested call left number objects behind");
      if (!r.fired) nested.push_back(&r);
    }
    RunStatus s = run(q, h2);
    if (!endOk(s, h2, "the execution without nesting")) return;
    int j = 0;
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (r.nestOf >= 0) continue;
      if (j >= h2->nrec) { add(r, "one call more than without nesting"); return; }
      const Rec &o = h2->rec[j++];
      ++E.judged;
      if (r.kind != o.kind || r.op != o.op || r.step != o.step) { add(r, "another path than without nesting"); return; }
      if (r.fired != o.fired) return;     // as in c03
      std::string d = diffRec(w, r, o, true);
      if (!d.empty()) { add(r, std::string(r.nested ? "interrupted by nested computations" : "after a call interrupted by nested computations") + ": " + d); return; }
    }
    versusClean(nested, "a nested call");
  }
  void c09() {
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (!r.done || r.kind != SK_OP || r.op != OP_out) continue;
      ++E.judged;
      auto same = [&](const NumV *x, const NumV *y) { return sameNum(x[0], y[0]) && sameNum(x[1], y[1]); };
      if (!same(r.a, r.srcA1)) add(r, "the interval was modified");
      if (r.mode0 != r.mode1 && !r.form) add(r, "the rounding mode was changed");
      if (!r.sflagsSame) add(r, "the stream's formatting settings were changed");
      std::string got(r.stext, r.slen), exp(r.xtext, r.xlen);
      if (got.size() > exp.size() || exp.compare(0, got.size(), got) != 0) { add(r, "wrote '" + got + "', expected '" + exp + "'"); continue; }
      if (r.fired) continue;                       // the number's own output failed: a prefix is all there can be
      int mask = (r.k & 16 ? (int)std::ios::badbit : 0) | (r.k & 32 ? (int)std::ios::failbit : 0);
      int bad = (int)std::ios::badbit, fail = (int)std::ios::failbit, eof = (int)std::ios::eofbit;
      if (r.siost0 != 0) {
        if (!got.empty()) add(r, "wrote to a stream that had failed");
        if ((r.siost & r.siost0) != r.siost0) add(r, "the stream's state was cleared");
        if (r.outcome != OC_OK && !((mask & fail) && r.ex == EX_IOS)) add(r, std::string("raised ") + exName(r.ex));
        continue;
      }
      bool devFail = r.sfail >= 0 && r.sfail < (int)exp.size();
      if (!devFail) {
        if (r.outcome != OC_OK) { add(r, std::string("raised ") + exName(r.ex) + " on a working stream"); continue; }
        if (got != exp) add(r, "wrote '" + got + "', expected '" + exp + "'");
        if (r.siost != 0) add(r, "a working stream ends in state " + std::to_string(r.siost));
        if (r.rb != 1) add(r, "did not return its stream");
      } else {
        if ((int)got.size() != r.sfail) add(r, "device took '" + got + "' of '" + exp + "' before failing at character " + std::to_string(r.sfail));
        if (!(r.siost & (bad | fail))) add(r, "the device failed, the stream's state does not show it");
        bool devThrow = r.k & 64;
        // (libstdc++ swallows the exception of a failed wide stream when it is given a narrow string such as "[]", and,
        // unless it throws for badbit, that of a failed one given any narrow string)
        bool swallowed = (r.k & 8) && (r.k & 1024) && exp.size() >= 2 && exp.compare(exp.size() - 2, 2, "[]") == 0;
        if (swallowed) {}
        else if (r.outcome == OC_OK) { if (((r.siost & mask) & (bad | fail)) && (!(r.k & 8) || (mask & bad))) add(r, "the stream is set to throw, nothing was thrown"); }
        else if (!(mask && (r.ex == EX_IOS || (devThrow && r.ex == EX_DEVICE)))) add(r, std::string("raised ") + exName(r.ex));
      }
      (void)eof;
    }
  }
  void c11() {
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (!r.done || r.kind != SK_OP) continue;
      ++E.judged;
      double a = 2000, n = 8000;      // several times the largest counts ever seen
      if (r.op == OP_nth_root && !f.rat) {   // interval Newton halves at worst: proportional to range and precision
        int lk = 1; while (r.k >> lk) ++lk;
        double u = (double)(f.emax - f.emin + 2 * f.p) * lk;
        a += 400 * u; n += 800 * u;
      }
      if (r.narith > a || r.npt > n) add(r, "needed " + std::to_string(r.narith) + " number operations and " + std::to_string(r.npt) + " steps");
    }
  }
  void c15() {
    bool emptyOk = w.chk == CK_BASE || w.chk == CK_CATCHBASE || w.chk == CK_NONAN;
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (!r.done || r.kind != SK_OP || r.asgFired) continue;   // failing assignments of numbers: see C05
      auto nanI = [&](const NumV *v) { return !w.rat && (v[0].f != v[0].f || v[1].f != v[1].f); };
      auto nanT = [&](const NumV &v) { return !w.rat && v.f != v.f; };
      auto inf = [&](const NumV *v) { return !w.rat && (std::isinf(v[0].f) || std::isinf(v[1].f)); };
      // invalid numbers the policy does not look for are the caller's responsibility
      if (w.chk == CK_STRICT || w.chk == CK_NONAN) {
        if (nanT(r.t) || nanT(r.s) || nanT(r.x) || nanT(r.y)) continue;
        if ((opHas(r.op, 'L') || opHas(r.op, 'H') || r.op == OP_assign_al) && nanI(r.dst0)) continue;
      }
      if (r.op == OP_widen && !(r.t.f >= 0)) continue;                    // outside the documented use
      if (r.op == OP_bisect && inf(r.a)) continue;
      if ((opHas(r.op, 'L') && !w.rat && std::isinf(r.dst0[0].f)) || (opHas(r.op, 'H') && !w.rat && std::isinf(r.dst0[1].f))) continue;   // an infinite "number"
      if (w.libm == 1 && opGrp(r.op, 't')) continue;                     // that library does not honour the mode
      if (opGrp(r.op, 'f')) {                                             // remainder: bounded operands, positive divisor
        const NumV *dv = r.op == OP_fmod_II ? r.b : r.op == OP_fmod_IT ? &r.t : r.a;
        if (!(dv[0].f > 0) || inf(r.a) || (r.op == OP_fmod_II && inf(r.b))) continue;
      }
      ++E.judged;
      auto look = [&](const NumV *v, const char *what) {
        bool ok = w.rat ? (__int128)v[0].n * v[1].d <= (__int128)v[1].n * v[0].d : v[0].f <= v[1].f;
        if (ok) return;
        if (emptyOk) { if (w.rat || (v[0].f != v[0].f && v[1].f != v[1].f)) return; add(r, std::string(what) + " [" + show(w, v[0]) + "," + show(w, v[1]) + "] is neither valid nor the policy's empty interval"); }
        else add(r, std::string(what) + " [" + show(w, v[0]) + "," + show(w, v[1]) + "] is invalid, under a policy without empty intervals");
      };
      char t = opInfo[r.op].res;
      if (r.outcome == OC_OK && (t == 'I' || t == 'P')) look(r.r, "result");
      if (r.outcome == OC_OK && t == 'P' && r.rb) look(r.r + 2, "second result");
      if (opHas(r.op, 'm')) look(r.dst1, r.outcome == OC_OK ? "left operand" : "left operand of the failed call");
    }
  }
  void c16() {
    std::vector<Issue> v;
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (!r.done || r.kind != SK_OP || !opGrp(r.op, 'p')) continue;
      ++E.judged;
      if (r.mode0 != r.mode1 && !r.form) add(r, "the rounding object left another mode behind");
      v.clear(); judgePrims(w, f, r, v);
      for (auto &x : v) E.issues.push_back({prop, x.what + "  {" + w.name + (r.form ? ", unprotected" : "") + ", step " + std::to_string(r.step) + ", mode " + std::to_string(r.mode0) + ", variant " + std::to_string(primVariant(r.k)) + (r.fired ? ", another call failed" : "") + "}"});
    }
  }
  void c17() {
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (!r.done || r.kind == SK_NOP) continue;
      ++E.judged;
      if (r.dead) add(r, "used number objects that did not live (" + std::to_string(r.dead) + " time(s))");
    }
  }
  void c18() {
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (!r.done || r.kind == SK_NOP) continue;
      ++E.judged;
      if (r.race) add(r, std::to_string(r.race) + " unordered access(es) to memory another thread uses");
    }
  }
  void all() {
    RunStatus s = run(p, h);
    E.hash = historyHash(h, s.end, s.sig);
    Hash sh; sh.u(p.world); sh.u(h->schedHash);
    uint32_t fc = 0; for (int i = 0; i < NFK; ++i) fc += h->fc[i];
    for (int i = 0; i < h->nrec; ++i) {
      const Rec &r = h->rec[i];
      if (r.kind == SK_OP && r.done) ++E.ops;
      sh.u(r.task | (uint64_t)r.op << 8 | (uint64_t)r.form << 24 | (uint64_t)r.ex << 26 | (uint64_t)(r.mode0 & 63) << 32 | (uint64_t)(r.fired + 2 * r.nested + 16 * r.switches) << 40);
      sh.u(r.npt);
    }
    E.shape = sh.h; E.nontrivial = fc > 0 && E.ops > 0;
    if (!endOk(s, h, "this execution")) return;
    if (prop == "C01") c01();
    else if (prop == "C02" || prop == "C07" || prop == "C10" || prop == "C12" || prop == "C13") judgeAll(prop.c_str());
    else if (prop == "C03") c03();
    else if (prop == "C04") c04();
    else if (prop == "C05") c05();
    else if (prop == "C06") c06();
    else if (prop == "C08") c08();
    else if (prop == "C09") c09();
    else if (prop == "C11") c11();
    else if (prop == "C14") c14();
    else if (prop == "C15") c15();
    else if (prop == "C16") c16();
    else if (prop == "C17") c17();
    else if (prop == "C18") c18();
  }
};
void evaluate(const std::string &prop, const Plan &p, History *h, History *h2, Eval &e) { Checker c(prop, p, h, h2, e); c.all(); }
}
