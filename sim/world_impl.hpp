// Executes plan steps against the real Boost.Interval headers of /repo for one
// configuration (number type, rounding policy, checking policy).
#pragma once
#include <boost/numeric/interval.hpp>
#include <boost/numeric/interval/ext/integer.hpp>
#include <boost/numeric/interval/io.hpp>
#include <boost/numeric/interval/limits.hpp>
#include <boost/numeric/interval/compare/tribool.hpp>
#include <cstring>
#include <sstream>
#include <type_traits>
#include <typeinfo>
#include <locale>
#include "engine.hpp"
#include "simnum.hpp"

namespace bn = boost::numeric;
namespace il = boost::numeric::interval_lib;

namespace boost { namespace numeric { namespace interval_lib {
template<> struct rounding_control<dst::SimNum> : dst::SimFpu {};
namespace constants {
template<> inline dst::SimNum pi_lower<dst::SimNum>() { return dst::simPi(0, false); }
template<> inline dst::SimNum pi_upper<dst::SimNum>() { return dst::simPi(0, true); }
template<> inline dst::SimNum pi_half_lower<dst::SimNum>() { return dst::simPi(1, false); }
template<> inline dst::SimNum pi_half_upper<dst::SimNum>() { return dst::simPi(1, true); }
template<> inline dst::SimNum pi_twice_lower<dst::SimNum>() { return dst::simPi(2, false); }
template<> inline dst::SimNum pi_twice_upper<dst::SimNum>() { return dst::simPi(2, true); }
template<> inline dst::SimRat pi_lower<dst::SimRat>() { return dst::ratPi(0, false); }
template<> inline dst::SimRat pi_upper<dst::SimRat>() { return dst::ratPi(0, true); }
template<> inline dst::SimRat pi_half_lower<dst::SimRat>() { return dst::ratPi(1, false); }
template<> inline dst::SimRat pi_half_upper<dst::SimRat>() { return dst::ratPi(1, true); }
template<> inline dst::SimRat pi_twice_lower<dst::SimRat>() { return dst::ratPi(2, false); }
template<> inline dst::SimRat pi_twice_upper<dst::SimRat>() { return dst::ratPi(2, true); }
}}}}

// Everything below has internal linkage, and the build makes every inline
// function of a configuration local to its object file: configurations differ in
// compiler flags and rounding controls and must not share code.
namespace dst { namespace {

// ---- policies used by the worlds ---------------------------------------
struct MyEmptyError { }; struct MyNanError { }; struct PolicyNoInf { };
struct throw_my_empty { void operator()() { throw MyEmptyError(); } };
struct throw_my_nan { void operator()() { throw MyNanError(); } };

// A checking policy whose every call is a scheduling / interruption / failure point.
template<class T, class C> struct SimChk : C {
  static T pos_inf() { point(P_POLICY); return C::pos_inf(); }
  static T neg_inf() { point(P_POLICY); return C::neg_inf(); }
  static T nan() { point(P_POLICY); return C::nan(); }
  static bool is_nan(const T &x) { point(P_POLICY); return C::is_nan(x); }
  static T empty_lower() { point(P_POLICY); return C::empty_lower(); }
  static T empty_upper() { point(P_POLICY); return C::empty_upper(); }
  static bool is_empty(const T &l, const T &u) { point(P_POLICY); return C::is_empty(l, u); }
};
template<class T, class C> struct NoInfChk : C {
  static T pos_inf() { throw PolicyNoInf(); }
  static T neg_inf() { throw PolicyNoInf(); }
  static T nan() { throw PolicyNoInf(); }
};

// ---- number type glue ----------------------------------------------------
template<class T> struct Glue {   // hardware types
  static NumV toV(const T &x) { return mkf(x); }
  static T fromV(const NumV &v) { return (T)v.f; }
  static constexpr bool rat = false;
};
template<> struct Glue<SimNum> {
  static NumV toV(const SimNum &x) { return mkf(x.v); }
  static SimNum fromV(const NumV &v) { return SimNum(SimNum::Raw(), v.f); }
  static constexpr bool rat = false;
};
template<> struct Glue<SimRat> {
  static NumV toV(const SimRat &x) { return mkq(x.n, x.d); }
  static SimRat fromV(const NumV &v) { return SimRat(SimRat::Raw(), v.n, v.d); }
  static constexpr bool rat = true;
};

// ---- simulated output device ----------------------------------------------
template<class C> struct SimBuf : std::basic_streambuf<C> {
  std::basic_string<C> got; int fail; bool thr;
  SimBuf(int f, bool t) : fail(f), thr(t) {}
  typedef std::char_traits<C> TR;
  typename TR::int_type overflow(typename TR::int_type c) override {
    if (fail >= 0 && (int)got.size() >= fail) {
      countFault(thr ? FC_DEVTHROW : FC_DEVICE);
      if (thr) throw DeviceError{7};
      return TR::eof();
    }
    if (!TR::eq_int_type(c, TR::eof())) got.push_back(TR::to_char_type(c));
    return TR::not_eof(c);
  }
  std::streamsize xsputn(const C *s, std::streamsize n) override {
    for (std::streamsize i = 0; i < n; ++i)
      if (TR::eq_int_type(overflow(TR::to_int_type(s[i])), TR::eof())) return i;
    return n;
  }
};
template<class A, class B, class = void> struct CanSubset : std::false_type {};
template<class A, class B> struct CanSubset<A, B, decltype((void)bn::subset(std::declval<const A &>(), std::declval<const B &>()))> : std::true_type {};
struct CommaPunct : std::numpunct<char> { char do_decimal_point() const override { return ';'; } char do_thousands_sep() const override { return '\''; } std::string do_grouping() const override { return "\3"; } };

template<class Cfg> struct WorldT : World {
  typedef typename Cfg::T T;
  typedef Glue<T> G;
  typedef bn::interval<T, il::policies<typename Cfg::rounding, typename Cfg::checking>> IGen;
  typedef typename Cfg::template Pick<IGen>::type I;       // the configuration's interval type
  typedef typename il::unprotect<I>::type R;
  typedef typename I::traits_type::rounding Rounding;
  typedef typename I::traits_type::checking Checking;
  typedef bn::interval<T, il::policies<Rounding, il::checking_base<T>>> IO_;   // another checking policy
  typedef typename Cfg::WT WT;
  typedef bn::interval<WT, il::policies<il::rounded_math<WT>, il::checking_base<WT>>> IW;

  struct Regs { I iv[NREG]; T nv[NTREG]; int depth = 0; std::vector<int> match; const std::vector<Step> *prog; };

  static bool emptyAllowed(int chk) { return chk == CK_BASE || chk == CK_CATCHBASE || chk == CK_NONAN; }

  bool supports(int op) const override {
    if (opGrp(op, 't') && !Cfg::transc) return false;
    if (opGrp(op, 'r') && !Cfg::root) return false;
    if (op == OP_sqrt && Cfg::x87) return false;   // the compiler's inline square root uses the other floating-point unit
    if (op == OP_lim && Glue<T>::rat) return false;
    return true;
  }
  int getMode() override { return Cfg::mode(); }
  void setMode(int m) override { Cfg::setMode(m); }

  template<class J> static void copyTo(J &d, const I &x) { store(d, G::toV(x.lower()), G::toV(x.upper())); }
  template<class J> static void store(J &d, const NumV &lo, const NumV &hi) {   // out of library context: no points, no faults
    bool ok = G::rat ? ((__int128)lo.n * hi.d <= (__int128)hi.n * lo.d) : (lo.f <= hi.f);
    if (ok && !G::rat && lo.f == hi.f && std::isinf(lo.f)) ok = false;
    else if (!ok && emptyAllowed(Cfg::info().chk)) { d = J::empty(); return; }
    if (ok) d.assign(G::fromV(lo), G::fromV(hi));
    else d.assign(G::fromV(G::rat ? mkq(0, 1) : mkf(0)), G::fromV(G::rat ? mkq(1, 1) : mkf(1)));
  }

  // ------------------------------------------------------------ foreign scalars
  template<class F> static void withU(int ut, const NumV &x, const NumV &y, F &&f) {
    if constexpr (G::rat) {
      switch (ut) {
        case U_UINT: { unsigned u = (unsigned)x.n, v = (unsigned)y.n; f(u, v); return; }
        case U_LL: { long long u = x.n, v = y.n; f(u, v); return; }
        default: { int u = (int)x.n, v = (int)y.n; f(u, v); return; }
      }
    } else {
      switch (ut) {
        case U_UINT: { unsigned u = (unsigned)x.f, v = (unsigned)y.f; f(u, v); return; }
        case U_FLOAT: { float u = (float)x.f, v = (float)y.f; f(u, v); return; }
        case U_DOUBLE: { double u = (double)x.f, v = (double)y.f; f(u, v); return; }
        case U_LDBL: { long double u = x.f, v = y.f; f(u, v); return; }
        case U_LL: { long long u = (long long)x.f, v = (long long)y.f; f(u, v); return; }
        default: { int u = (int)x.f, v = (int)y.f; f(u, v); return; }
      }
    }
  }
  static WT wv(const NumV &v) { if constexpr (std::is_integral<WT>::value) return (WT)v.n; else return (WT)v.f; }

  // ------------------------------------------------------------ capture of results
  template<class J> static void cap(Rec &r, const J &x) { tc->inLib = false; r.mode1 = Cfg::mode(); r.r[0] = G::toV(x.lower()); r.r[1] = G::toV(x.upper()); }
  template<class J> static void capP(Rec &r, const J &x, const J &y, bool b) {
    tc->inLib = false; r.mode1 = Cfg::mode(); r.r[0] = G::toV(x.lower()); r.r[1] = G::toV(x.upper()); r.r[2] = G::toV(y.lower()); r.r[3] = G::toV(y.upper()); r.rb = b;
  }
  static void capT(Rec &r, const T &x) { tc->inLib = false; r.mode1 = Cfg::mode(); r.r[0] = G::toV(x); }
  // the operand with the other checking policy (which allows empty intervals, whatever the configuration does)
  template<class J> static IO_ other(const Step &s, const J &b) { return s.emp & 1 ? IO_::empty() : IO_(b.lower(), b.upper()); }
  static void capB(Rec &r, bool b) { tc->inLib = false; r.mode1 = Cfg::mode(); r.rb = b; }

  template<class A, class B> static bool rel(int k, const A &a, const B &b) {
    switch (k % 6) { case 0: return a < b; case 1: return a > b; case 2: return a <= b; case 3: return a >= b; case 4: return a == b; default: return a != b; }
  }
  template<class A, class B> static bool relCer(int k, const A &a, const B &b) {
    using namespace il;
    switch (k % 6) { case 0: return cerlt(a, b); case 1: return cergt(a, b); case 2: return cerle(a, b); case 3: return cerge(a, b); case 4: return cereq(a, b); default: return cerne(a, b); }
  }
  template<class A, class B> static bool relPos(int k, const A &a, const B &b) {
    using namespace il;
    switch (k % 6) { case 0: return poslt(a, b); case 1: return posgt(a, b); case 2: return posle(a, b); case 3: return posge(a, b); case 4: return poseq(a, b); default: return posne(a, b); }
  }
#define NSREL(nm, ns, RT) template<class A, class B> static RT nm(int k, const A &a, const B &b) { \
    using il::compare::ns::operator<; using il::compare::ns::operator>; using il::compare::ns::operator<=; \
    using il::compare::ns::operator>=; using il::compare::ns::operator==; using il::compare::ns::operator!=; \
    switch (k % 6) { case 0: return a < b; case 1: return a > b; case 2: return a <= b; case 3: return a >= b; case 4: return a == b; default: return a != b; } }
  NSREL(relNC, certain, bool) NSREL(relNP, possible, bool) NSREL(relNL, lexicographic, bool) NSREL(relNS, set, bool)
  NSREL(relNT, tribool, boost::logic::tribool)
  static int tri(boost::logic::tribool b) { return b ? 1 : !b ? 0 : 2; }

  // ------------------------------------------------------------ stream output
  template<class C, class J> static void doOut(const Step &s, Rec &r, const J &x, const J &y) {
    bool thr = s.k & 64;
    SimBuf<C> buf(r.sfail, thr);
    std::basic_ostream<C> os(&buf);
    std::basic_ostringstream<C> ref;
    auto setup = [&](std::basic_ostream<C> &o) {
      switch (s.k & 7) {
        case 1: o.precision(17); break;
        case 2: o.setf(std::ios::fixed, std::ios::floatfield); o.precision(3); break;
        case 3: o.setf(std::ios::scientific, std::ios::floatfield); break;
        case 4: o.setf(std::ios::showpos | std::ios::showpoint); break;
        case 5: o.setf(std::ios::uppercase); o.precision(2); break;
        case 6: o.setf(std::ios::fixed | std::ios::scientific, std::ios::floatfield); break;
        case 7: if constexpr (std::is_same<C, char>::value) o.imbue(std::locale(std::locale::classic(), new CommaPunct)); break;
      }
      o.fill('*');
    };
    setup(os); setup(ref);
    if (s.k & 512) os.setf(std::ios::unitbuf);
    std::ios::iostate mask = std::ios::goodbit;
    if (s.k & 16) mask |= std::ios::badbit;
    if (s.k & 32) mask |= std::ios::failbit;
    os.exceptions(mask);
    if ((s.k & 128) && !(mask & std::ios::failbit)) os.setstate(std::ios::failbit);
    if ((s.k & 256) && !(mask & std::ios::failbit)) os.setstate(std::ios::eofbit);
    auto text = [&](const J &v) {
      bool emptyIv = G::rat ? !((__int128)G::toV(v.lower()).n * G::toV(v.upper()).d <= (__int128)G::toV(v.upper()).n * G::toV(v.lower()).d)
                            : !(G::toV(v.lower()).f <= G::toV(v.upper()).f);
      if (emptyIv) ref << '[' << ']'; else ref << '[' << v.lower() << ',' << v.upper() << ']';
    };
    text(x); bool two = s.k & 1024; if (two) { ref << ';'; text(y); }   // two intervals on one stream
    std::basic_string<C> xt = ref.str();
    r.xlen = 0; for (C c : xt) if (r.xlen < sizeof r.xtext) r.xtext[r.xlen++] = (char)c;
    r.siost0 = (uint8_t)os.rdstate();
    auto fl = os.flags(); auto pr = os.precision(); auto fi = os.fill(); auto wi = os.width(); auto ex = os.exceptions(); auto lo = os.getloc();
    std::basic_ostream<C> *ret = nullptr;
    auto fin = [&]() {
      r.siost = (uint8_t)os.rdstate();
      r.sflagsSame = fl == os.flags() && pr == os.precision() && fi == os.fill() && wi == os.width() && ex == os.exceptions() && lo == os.getloc();
      r.slen = 0; for (C c : buf.got) if (r.slen < sizeof r.stext) r.stext[r.slen++] = (char)c;
    };
    try {
      tc->inLib = true;
      { using bn::operator<<; ret = two ? &(os << x << C(';') << y) : &(os << x); }
      tc->inLib = false; r.mode1 = Cfg::mode();
      r.rb = ret == &os;
      fin();
    } catch (...) { tc->inLib = false; fin(); throw; }
  }

  // ------------------------------------------------------------ one library call
  // A, B, D may alias.  Throws whatever the library throws.
  template<class J> static void apply(const Step &s, Rec &r, J &A, J &B, J &D, T &t, T &u) {
    using namespace boost::numeric;
    using namespace boost::numeric::interval_lib;
    tc->inLib = true;
#define RI(e) { J res = (e); cap(r, res); } break;
#define RT_(e) { T res = (e); capT(r, res); } break;
#define RB_(e) { bool res = (e); capB(r, res); } break;
#define RN_(e) { e; tc->inLib = false; r.mode1 = Cfg::mode(); } break;
    switch (s.op) {
      case OP_ctor_T: RI(J(t))
      case OP_ctor_TS: RI(J(t, u))
      case OP_ctor_U: tc->inLib = false; withU(s.ut, s.x, s.x, [&](auto &x, auto &) { tc->inLib = true; J res(x); cap(r, res); }); break;
      case OP_ctor_UV: tc->inLib = false; withU(s.ut, s.x, s.y, [&](auto &x, auto &y) { tc->inLib = true; J res(x, y); cap(r, res); }); break;
      case OP_ctor_copy: RI(J(A))
      case OP_ctor_opol: { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; J res(o); cap(r, res); } break;
      case OP_ctor_obase: { tc->inLib = false; IW w = s.emp ? IW::empty() : IW(wv(s.x), wv(s.y)); tc->inLib = true; J res(w); cap(r, res); } break;
      case OP_asg_T: RN_(D = t)
      case OP_asg_U: tc->inLib = false; withU(s.ut, s.x, s.x, [&](auto &x, auto &) { tc->inLib = true; D = x; tc->inLib = false; r.mode1 = Cfg::mode(); }); break;
      case OP_asg_I: RN_(D = B)
      case OP_asg_opol: { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; D = o; tc->inLib = false; r.mode1 = Cfg::mode(); } break;
      case OP_asg_obase: { tc->inLib = false; IW w = s.emp ? IW::empty() : IW(wv(s.x), wv(s.y)); tc->inLib = true; D = w; tc->inLib = false; r.mode1 = Cfg::mode(); } break;
      case OP_asg_L: RN_(D = D.lower())
      case OP_asg_H: RN_(D = D.upper())
      case OP_assign_TS: RN_(D.assign(t, u))
      case OP_assign_al: switch (s.k % 6) { // the new bounds refer to the old ones
        case 0: RN_(D.assign(t, D.lower())) case 1: RN_(D.assign(D.upper(), t)) case 2: RN_(D.assign(D.lower(), t))
        case 3: RN_(D.assign(t, D.upper())) case 4: RN_(D.assign(D.lower(), D.upper())) default: RN_(D.assign(D.upper(), D.lower()))
      } break;
      case OP_ctor_0: { J res; cap(r, res); } break;
      case OP_s_empty: RI(J::empty())
      case OP_s_whole: RI(J::whole())
      case OP_s_hull: RI(J::hull(t, u))
      case OP_pos: RI(+A)
      case OP_neg: RI(-A)
      case OP_add_II: RI(A + B)
      case OP_add_TI: RI(t + A)
      case OP_add_IT: RI(A + t)
      case OP_sub_II: RI(A - B)
      case OP_sub_TI: RI(t - A)
      case OP_sub_IT: RI(A - t)
      case OP_mul_II: RI(A * B)
      case OP_mul_TI: RI(t * A)
      case OP_mul_IT: RI(A * t)
      case OP_div_II: RI(A / B)
      case OP_div_TI: RI(t / A)
      case OP_div_IT: RI(A / t)
      case OP_addi_II: RN_(D += B)
      case OP_addi_IT: RN_(D += t)
      case OP_addi_IL: RN_(D += D.lower())
      case OP_addi_IH: RN_(D += D.upper())
      case OP_subi_II: RN_(D -= B)
      case OP_subi_IT: RN_(D -= t)
      case OP_subi_IL: RN_(D -= D.lower())
      case OP_subi_IH: RN_(D -= D.upper())
      case OP_muli_II: RN_(D *= B)
      case OP_muli_IT: RN_(D *= t)
      case OP_muli_IL: RN_(D *= D.lower())
      case OP_muli_IH: RN_(D *= D.upper())
      case OP_divi_II: RN_(D /= B)
      case OP_divi_IT: RN_(D /= t)
      case OP_divi_IL: RN_(D /= D.lower())
      case OP_divi_IH: RN_(D /= D.upper())
      case OP_add_TS: RI(add<J>(t, u))
      case OP_sub_TS: RI(sub<J>(t, u))
      case OP_mul_TS: RI(mul<J>(t, u))
      case OP_div_TS: RI(div<J>(t, u))
      case OP_extint: {
        int n = (s.k >> 3) - 64;
        switch (s.k & 7) {
          case 0: RI(A + n) case 1: RI(n + A) case 2: RI(A - n) case 3: RI(n - A)
          case 4: RI(A * n) case 5: RI(n * A) case 6: RI(A / n) default: RI(n / A)
        }
      } break;
      case OP_fmod_II: RI(fmod(A, B))
      case OP_fmod_IT: RI(fmod(A, t))
      case OP_fmod_TI: RI(fmod(t, A))
      case OP_divp: {
        bool b = true; J p1 = division_part1(A, B, b);
        if (b) { J p2 = division_part2(A, B, b); capP(r, p1, p2, true); }
        else capP(r, p1, p1, false);
      } break;
      case OP_inv: RI(multiplicative_inverse(A))
      case OP_pow: RI(pow(A, s.k))
      case OP_square: RI(square(A))
      case OP_lower: RT_(lower(A))
      case OP_upper: RT_(upper(A))
      case OP_clower: RT_(checked_lower(A))
      case OP_cupper: RT_(checked_upper(A))
      case OP_width: RT_(width(A))
      case OP_median: RT_(median(A))
      case OP_norm: RT_(norm(A))
      case OP_widen: RI(widen(A, t))
      case OP_abs: RI(abs(A))
      case OP_max_II: RI((max)(A, B))
      case OP_max_IT: RI((max)(A, t))
      case OP_max_TI: RI((max)(t, A))
      case OP_min_II: RI((min)(A, B))
      case OP_min_IT: RI((min)(A, t))
      case OP_min_TI: RI((min)(t, A))
      case OP_empty: RB_(empty(A))
      case OP_zero_in: RB_(zero_in(A))
      case OP_in: RB_(in(t, A))
      case OP_subset: RB_(subset(A, B))
      case OP_psubset: RB_(proper_subset(A, B))
      case OP_subset_o: if constexpr (!CanSubset<J, IO_>::value) { r.rb = NO_OVERLOAD; tc->inLib = false; r.mode1 = Cfg::mode(); } else { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; bool b = subset(A, o); capB(r, b); } break;
      case OP_psubset_o: { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; bool b = proper_subset(A, o); capB(r, b); } break;
      case OP_overlap: RB_(overlap(A, B))
      case OP_overlap_o: { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; bool b = overlap(A, o); capB(r, b); } break;
      case OP_singleton: RB_(singleton(A))
      case OP_equal: RB_(equal(A, B))
      case OP_equal_o: { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; bool b = equal(A, o); capB(r, b); } break;
      case OP_intersect: RI(intersect(A, B))
      case OP_hull_II: RI(hull(A, B))
      case OP_hull_IT: RI(hull(A, t))
      case OP_hull_TI: RI(hull(t, A))
      case OP_bisect: { std::pair<J, J> p = bisect(A); capP(r, p.first, p.second, true); } break;
      case OP_cmp_II: RB_(rel(s.k, A, B))
      case OP_cmp_IO: { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; bool b = rel(s.k, A, o); capB(r, b); } break;
      case OP_cmp_IT: RB_(rel(s.k, A, t))
      case OP_xcer_II: RB_(relCer(s.k, A, B))
      case OP_xcer_IO: { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; bool b = relCer(s.k, A, o); capB(r, b); } break;
      case OP_xpos_IO: { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; bool b = relPos(s.k, A, o); capB(r, b); } break;
      case OP_cer_IO: { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; bool b = relNC(s.k, A, o); capB(r, b); } break;
      case OP_pos_IO: { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; bool b = relNP(s.k, A, o); capB(r, b); } break;
      case OP_lex_IO: { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; bool b = relNL(s.k, A, o); capB(r, b); } break;
      case OP_set_IO: if constexpr (!CanSubset<J, IO_>::value) { r.rb = NO_OVERLOAD; tc->inLib = false; r.mode1 = Cfg::mode(); } else { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; bool b = relNS(s.k, A, o); capB(r, b); } break;
      case OP_tri_IO: { tc->inLib = false; IO_ o = other(s, B); tc->inLib = true; int v = tri(relNT(s.k, A, o)); tc->inLib = false; r.mode1 = Cfg::mode(); r.rb = v; } break;
      case OP_xcer_IT: RB_(relCer(s.k, A, t))
      case OP_xcer_TI: RB_(relCer(s.k, t, A))
      case OP_xpos_II: RB_(relPos(s.k, A, B))
      case OP_xpos_IT: RB_(relPos(s.k, A, t))
      case OP_xpos_TI: RB_(relPos(s.k, t, A))
      case OP_cer_II: RB_(relNC(s.k, A, B))
      case OP_cer_IT: RB_(relNC(s.k, A, t))
      case OP_pos_II: RB_(relNP(s.k, A, B))
      case OP_pos_IT: RB_(relNP(s.k, A, t))
      case OP_lex_II: RB_(relNL(s.k, A, B))
      case OP_lex_IT: RB_(relNL(s.k, A, t))
      case OP_set_II: RB_(relNS(s.k, A, B))
      case OP_set_IT: RB_(relNS(s.k, A, t))
      case OP_tri_II: { int v = tri(relNT(s.k, A, B)); tc->inLib = false; r.mode1 = Cfg::mode(); r.rb = v; } break;
      case OP_tri_IT: { int v = tri(relNT(s.k, A, t)); tc->inLib = false; r.mode1 = Cfg::mode(); r.rb = v; } break;
      case OP_rnd: case OP_rndt: case OP_rndc: case OP_rctl: prims<J>(s, r, t, u); break;
      case OP_out: tc->inLib = false; if (s.k & 8) doOut<wchar_t>(s, r, A, B); else doOut<char>(s, r, A, B); break;
      default:
        if constexpr (Cfg::root) switch (s.op) {
          case OP_sqrt: { using boost::numeric::sqrt; RI(sqrt(A)) }
          case OP_nth_root: RI(nth_root(A, s.k))
        }
        if constexpr (Cfg::transc) switch (s.op) {
          case OP_exp: RI(exp(A)) case OP_log: RI(log(A)) case OP_sin: RI(sin(A)) case OP_cos: RI(cos(A)) case OP_tan: RI(tan(A))
          case OP_asin: RI(asin(A)) case OP_acos: RI(acos(A)) case OP_atan: RI(atan(A)) case OP_sinh: RI(sinh(A)) case OP_cosh: RI(cosh(A))
          case OP_tanh: RI(tanh(A)) case OP_asinh: RI(asinh(A)) case OP_acosh: RI(acosh(A)) case OP_atanh: RI(atanh(A))
          case OP_pis: switch (s.k % 3) { case 0: RI(pi<J>()) case 1: RI(pi_half<J>()) default: RI(pi_twice<J>()) } break;
        }
        if constexpr (!G::rat) if (s.op == OP_lim) switch (s.k % 6) {
          case 0: RI((std::numeric_limits<J>::min)()) case 1: RI((std::numeric_limits<J>::max)()) case 2: RI(std::numeric_limits<J>::epsilon())
          case 3: RI(std::numeric_limits<J>::infinity()) case 4: RI(std::numeric_limits<J>::quiet_NaN()) default: RI(std::numeric_limits<J>::denorm_min())
        }
    }
    tc->inLib = false;
  }

  // ------------------------------------------------------------ directed primitives
  // One rounding object, four calls; a call that fails is caught inside, the others still run, and the
  // failure is passed on once the object is gone.
  template<class Rnd> static T prim(Rnd &rnd, int f, const T &x, const T &y) {
    switch (f) {
      case PR_ADDD: return rnd.add_down(x, y); case PR_ADDU: return rnd.add_up(x, y);
      case PR_SUBD: return rnd.sub_down(x, y); case PR_SUBU: return rnd.sub_up(x, y);
      case PR_MULD: return rnd.mul_down(x, y); case PR_MULU: return rnd.mul_up(x, y);
      case PR_DIVD: return rnd.div_down(x, y); case PR_DIVU: return rnd.div_up(x, y);
      case PR_MED: return rnd.median(x, y);
      case PR_INTD: return rnd.int_down(x); case PR_INTU: return rnd.int_up(x);
    }
    if constexpr (Cfg::root && !Cfg::x87) { if (f == PR_SQRTD) return rnd.sqrt_down(x); if (f == PR_SQRTU) return rnd.sqrt_up(x); }
    if constexpr (Cfg::transc) switch (f - PR_TR) {
#define F2(n, f) case 2 * n: return rnd.f##_down(x); case 2 * n + 1: return rnd.f##_up(x);
      F2(0, exp) F2(1, log) F2(2, sin) F2(3, cos) F2(4, tan) F2(5, asin) F2(6, acos) F2(7, atan) F2(8, sinh) F2(9, cosh) F2(10, tanh) F2(11, asinh) F2(12, acosh) F2(13, atanh)
#undef F2
    }
    return rnd.add_up(x, y);
  }
  // the rounding control underneath: set a direction, compute, force the rounding
  template<class Rnd> static T rctl(Rnd &rnd, int f, const T &x, const T &y) {
    switch (f / 4 % 3) { case 0: rnd.downward(); break; case 1: rnd.upward(); break; default: rnd.to_nearest(); }
    switch (f % 4) { case 0: return rnd.force_rounding(x + y); case 1: return rnd.force_rounding(x * y); case 2: return rnd.force_rounding(x - y); default: return rnd.to_int(x); }
  }
  template<class Rnd> struct PutBack { Rnd &r; typename Rnd::rounding_mode m; ~PutBack() { r.set_rounding_mode(m); } };
  // a sequence of four calls; `on(i, f)` gives f the rounding object of the i-th call
  template<class On> static void sequence(On &&on, const Step &s, Rec &r, const T &t, const T &u, std::exception_ptr &ep) {
    bool natural = false;   // an injected failure takes precedence
    auto four = [&](auto &&f) {
      for (int i = 0; i < 4; ++i) try { T x = on(i, [&](auto &rnd) { return f(i, rnd); }); r.r[i] = G::toV(x); r.rb |= 1 << i; }
      catch (NaturalOverflow &) { if (!ep) { ep = std::current_exception(); natural = true; } }
      catch (...) { if (!ep || natural) { ep = std::current_exception(); natural = false; } }
    };
    if (s.op == OP_rndc) {
      tc->inLib = false;
      withU(s.ut, s.x, s.x, [&](auto &x, auto &) { tc->inLib = true; four([&](int i, auto &rnd) -> T { return s.k >> i & 1 ? rnd.conv_up(x) : rnd.conv_down(x); }); });
    } else if (s.op == OP_rctl) {
      int k = s.k;
      four([&](int, auto &rnd) -> T {
        typename std::decay<decltype(rnd)>::type::rounding_mode m; rnd.get_rounding_mode(m);
        int f = k % 12; k /= 12;
        PutBack<typename std::decay<decltype(rnd)>::type> back{rnd, m};
        return rctl(rnd, f, t, u);
      });
    } else {
      NumV vt = G::toV(t), vu = G::toV(u);
      four([&](int i, auto &rnd) -> T { PrimCall c = primCall(s.op, s.k, i, vt, vu, Cfg::root && !Cfg::x87); return prim(rnd, c.f, i & 1 ? u : t, i & 1 ? t : u); });
    }
  }
  // the documented ways to nest rounding objects
  template<class J> __attribute__((noinline)) static void prims(const Step &s, Rec &r, const T &t, const T &u) {
    typedef typename J::traits_type::rounding Rnd;
    typedef typename Rnd::unprotected_rounding Unp;
    std::exception_ptr ep;
    r.rb = 0;
    {
      Rnd rnd;
      switch (primVariant(s.k)) {
        case 0: sequence([&](int, auto &&f) { return f(rnd); }, s, r, t, u, ep); break;
        case 1: { Rnd rnd2; sequence([&](int, auto &&f) { return f(rnd2); }, s, r, t, u, ep); } break;
        case 2: { Unp rnd2; sequence([&](int, auto &&f) { return f(rnd2); }, s, r, t, u, ep); } break;
        case 3: { Rnd rnd2; sequence([&](int i, auto &&f) { return i & 1 ? f(rnd2) : f(rnd); }, s, r, t, u, ep); } break;
        case 4: { Unp rnd2; sequence([&](int i, auto &&f) { return i & 1 ? f(rnd2) : f(rnd); }, s, r, t, u, ep); } break;
        case 5: sequence([&](int i, auto &&f) { if (i == 1 || i == 2) { Rnd rnd2; return f(rnd2); } return f(rnd); }, s, r, t, u, ep); break;
        default: sequence([&](int i, auto &&f) { if (i == 1 || i == 2) { Unp rnd2; return f(rnd2); } return f(rnd); }, s, r, t, u, ep);
      }
    }
    tc->inLib = false; r.mode1 = Cfg::mode();
    if (ep) std::rethrow_exception(ep);
  }

  static void classifyEx(Rec &r) {
    r.outcome = OC_THROW;
    try { throw; }
    catch (FaultCustom &e) { r.ex = EX_CUSTOM; r.exId = e.id; }
    catch (FaultBadAlloc &e) { r.ex = EX_BADALLOC; r.exId = e.id; }
    catch (FaultOverflow &e) { r.ex = EX_OVERFLOW; r.exId = e.id; }
    catch (FaultCancel &e) { r.ex = EX_CANCEL; r.exId = e.id; }
    catch (NaturalOverflow &) { r.ex = EX_NATURAL_OVERFLOW; }
    catch (MyEmptyError &) { r.ex = Cfg::info().customEx ? EX_POL_EMPTY : EX_UNKNOWN; }
    catch (MyNanError &) { r.ex = Cfg::info().customEx ? EX_POL_NAN : EX_UNKNOWN; }
    catch (PolicyNoInf &) { r.ex = EX_POL_INF; }
    catch (DeviceError &) { r.ex = EX_DEVICE; }
    catch (il::comparison_error &) { r.ex = EX_COMPARE; }
    catch (std::ios_base::failure &) { r.ex = EX_IOS; }
    catch (std::exception &e) {
      r.ex = EX_OTHER_STD;
      if (!Cfg::info().customEx) {
        if (typeid(e) == typeid(std::runtime_error)) r.ex = EX_POL_EMPTY;
        else if (typeid(e) == typeid(std::invalid_argument)) r.ex = EX_POL_NAN;
      }
    }
    catch (...) { r.ex = EX_UNKNOWN; }
  }

  template<class J> static void snap(NumV *o, const J &x) { o[0] = G::toV(x.lower()); o[1] = G::toV(x.upper()); }

  // Performs the call with full recording.  Returns true if it threw; if
  // `escape`, rethrows after recording.
  template<class J> static void callOn(const Step &s, int step, J &A, J &B, J &D, T &t, T &u, bool nested, int nestOf, int nthrow, int xk, int depth, bool &threw, int &recOut, int tag = 0) {
    int ri = newRec(); recOut = ri;
    Rec &r = H->rec[ri];
    r.task = tc->id; r.form = s.form; r.kind = SK_OP; r.step = step; r.op = s.op; r.nestOf = nestOf; r.depth = depth; r.d = s.d; r.ut = s.ut;
    r.k = s.k; r.x = s.x; r.y = s.y; r.smode = s.emp;
    snap(r.a, A); snap(r.b, B); snap(r.dst0, D); r.t = G::toV(t); r.s = G::toV(u);
    r.alias = (uint8_t)((&B == &D) | (&A == &D) << 1 | (&A == &B) << 2);
    for (const Event *e : tc->ev) if (!nested && e->step == step && e->kind == EV_STREAM) { r.sfail = e->sfail; }
    Frame f; f.nthrow = nthrow; f.xk = xk; f.tag = tag;
    bool wasLib = tc->inLib;
    r.mode0 = Cfg::mode();
    beginCall(f, step, ri, nested);
    threw = false;
    paintStack();
    try { apply<J>(s, r, A, B, D, t, u); }
    catch (...) { tc->inLib = false; r.mode1 = Cfg::mode(); classifyEx(r); threw = true; }
    endCall(f);
    snap(r.srcA1, A); snap(r.srcB1, B); snap(r.dst1, D); r.srcT1[0] = G::toV(t); r.srcT1[1] = G::toV(u);
    tc->inLib = wasLib;
  }

  void runNested(const Event &e, int nestOf) override {
    TaskCtx *c = tc;
    bool wasLib = c->inLib; int np = c->noPre;
    c->inLib = false; c->noPre = 0;
    {
      I A, B, D; store(A, e.na[0], e.na[1]); store(B, e.nb[0], e.nb[1]); store(D, e.na[0], e.na[1]);
      T t = G::fromV(e.nt[0]), u = G::fromV(e.nt[1]);
      bool threw; int rec;
      callOn<I>(e.nest, e.step, A, B, D, t, u, true, nestOf, e.nthrow, e.xk, 0, threw, rec, e.tag);
    }
    c->inLib = wasLib; c->noPre = np;
  }

  // operands every task may read; in static storage, where accesses are watched
  static constexpr int NSH = 8;
  static I *shI() { alignas(64) static unsigned char b[NSH * sizeof(I)]; return (I *)b; }
  static T *shT() { alignas(64) static unsigned char b[NSH * sizeof(T)]; return (T *)b; }
  void prepare() override {
    static const int q[NSH][2] = {{4, 8}, {-6, 12}, {-16, -2}, {0, 10}, {-8, 0}, {1, 28}, {4, 4}, {-1, 1}};   // quarters
    auto val = [](int x) { return G::rat ? mkq(x % 4 ? x % 2 ? x : x / 2 : x / 4, x % 4 ? x % 2 ? 4 : 2 : 1) : mkf(x / 4.0L); };
    for (int i = 0; i < NSH; ++i) { new (shI() + i) I(); store(shI()[i], val(q[i][0]), val(q[i][1])); new (shT() + i) T(G::fromV(val(q[i][1]))); }
  }

  static bool isIvRes(int op) { return opInfo[op].res == 'I'; }

  struct UnwindBlock {};

  static void finishOp(Regs &g, const Step &s, int rec) {
    Rec &r = H->rec[rec];
    if (r.outcome == OC_OK && isIvRes(s.op)) store(g.iv[s.d], r.r[0], r.r[1]);
    else if (r.outcome == OC_OK && opInfo[s.op].res == 'T' && !G::rat && std::isfinite(r.r[0].f)) g.nv[s.t] = G::fromV(r.r[0]);
    else if (opHas(s.op, 'm')) { const NumV *v = r.asgFired ? r.dst0 : r.dst1; store(g.iv[s.d], v[0], v[1]); }   // a failed assignment of a number: nothing is promised
  }

  // many earlier calls nobody looks at: wears in whatever the library might remember
  void warm(Regs &g, const Step &s) {
    Rec dummy;
    for (int i = 0; i < s.k; ++i) {
      I A, B, D; copyTo(A, g.iv[(s.a + i) % NREG]); copyTo(B, g.iv[(s.b + i / NREG) % NREG]);
      if (i % 3) {
        auto val = [&](unsigned j) -> NumV {
          if constexpr (G::rat) return mkq((int)(j % 23) - 9, 1 + j % 5);
          else if constexpr (std::is_same<T, SimNum>::value) return mkf((long double)((int)(j % 8) - 2) * (1 << (j / 8 % 3)));
          else return mkf((long double)((int)(j % 4093) - 1000) * 0.25L);
        };
        NumV lo = val(i * 7), hi = val(i * 11 + 3);
        if (lo.f > hi.f) std::swap(lo, hi);
        store(A, lo, hi);
        if (i % 3 == 2) { lo = val(i * 5 + 1); hi = val(i * 13); if (lo.f > hi.f) std::swap(lo, hi); store(B, lo, hi); }
      }
      copyTo(D, g.iv[s.d]);
      T t = g.nv[s.t], u = g.nv[s.s];
      Step q = s; q.kind = SK_OP; q.k = s.ut; q.ut = s.ut % U_NT; q.emp = 0; q.x = q.y = G::rat ? mkq(i % 9, 1) : mkf(i % 9);
      memset((void *)&dummy, 0, sizeof dummy); dummy.sfail = -1;
      countFault(FC_WARM);
      int m = Cfg::mode();
      try { apply<I>(q, dummy, A, B, D, t, u); } catch (...) {}
      tc->inLib = false;
      Cfg::setMode(m & 3);
    }
  }

  size_t execRange(Regs &g, size_t pc) {
    const std::vector<Step> &P = *g.prog;
    while (pc < P.size()) {
      const Step &s = P[pc];
      switch (s.kind) {
        case SK_NOP: break;
        case SK_MODE: if (g.depth == 0) { Cfg::setMode(s.k); countFault(FC_MODE); } break;
        case SK_LOADI:
          if (s.emp && emptyAllowed(Cfg::info().chk)) { g.iv[s.d] = I::empty(); countFault(FC_EMPTY); }
          else store(g.iv[s.d], s.x, s.y);
          break;
        case SK_WARM: warm(g, s); break;
        case SK_LOADT: g.nv[s.t] = G::fromV(s.x); if (s.x.f != s.x.f) countFault(FC_NAN); break;
        case SK_BEGIN: pc = execBlock(g, pc); continue;
        case SK_END: if (g.depth > 0) return pc + 1; break;
        case SK_OP: {
          bool threw; int rec;
          if (s.form == 0 || g.depth == 0) { if (s.share) countFault(FC_SHARE); callOn<I>(s, (int)pc, s.share & 1 ? shI()[s.a] : g.iv[s.a], s.share & 2 ? shI()[s.b] : g.iv[s.b], g.iv[s.d], s.share & 4 ? shT()[s.t] : g.nv[s.t], s.share & 4 ? shT()[s.s] : g.nv[s.s], false, -1, -1, 0, g.depth, threw, rec), H->rec[rec].form = 0; }
          else {
            R A, B, D; copyTo(A, g.iv[s.a]); copyTo(B, g.iv[s.b]); copyTo(D, g.iv[s.d]);
            R &rb = s.b == s.d ? D : s.b == s.a ? A : B;
            R &ra = s.a == s.d ? D : A;
            callOn<R>(s, (int)pc, ra, rb, D, g.nv[s.t], g.nv[s.s], false, -1, -1, 0, g.depth, threw, rec);
          }
          finishOp(g, s, rec);
          if (threw && s.unwind && g.depth > 0) { countFault(FC_UNWIND); throw UnwindBlock(); }
        } break;
      }
      ++pc;
    }
    return pc;
  }

  size_t execBlock(Regs &g, size_t pc) {
    size_t after = g.match[pc];
    int mb = Cfg::mode();
    int outer = g.depth;
    Frame fe; int re = -1; size_t bpc = pc;
    {
      int rb_ = newRec(); Rec &r = H->rec[rb_];
      r.task = tc->id; r.kind = SK_BEGIN; r.step = pc; r.op = OP_COUNT; r.depth = outer; r.mode0 = mb;
      Frame fb; beginCall(fb, (int)pc, rb_, false);
      bool unwound = false;
      try {
        tc->inLib = true;
        Rounding guard;
        (void)guard;
        tc->inLib = false;
        H->rec[rb_].mode1 = Cfg::mode();
        endCall(fb);
        g.depth = outer + 1;
        auto leave = [&]() {
          re = newRec(); Rec &q = H->rec[re];
          q.task = tc->id; q.kind = SK_END; q.step = (uint16_t)(after ? after - 1 : bpc); q.op = OP_COUNT; q.depth = outer; q.mode0 = mb;
          beginCall(fe, q.step, re, false);
          tc->inLib = true;
        };
        try { execRange(g, pc + 1); }
        catch (UnwindBlock &) { leave(); throw; }
        leave();
      } catch (UnwindBlock &) { unwound = true; }
      tc->inLib = false;
      if (re < 0) { endCall(fb); harnessFail("guard construction failed"); }
      H->rec[re].mode1 = Cfg::mode();
      H->rec[re].outcome = unwound ? OC_THROW : OC_OK;
      endCall(fe);
      g.depth = outer;
    }
    return after;
  }

  void runTask(int task) override {
    Regs g;
    g.prog = &curPlan->prog[task];
    const std::vector<Step> &P = *g.prog;
    g.match.assign(P.size() + 1, (int)P.size());
    std::vector<size_t> st;
    for (size_t i = 0; i < P.size(); ++i) {
      if (P[i].kind == SK_BEGIN) st.push_back(i);
      else if (P[i].kind == SK_END && !st.empty()) { g.match[st.back()] = (int)i + 1; st.pop_back(); }
    }
    for (auto &x : g.nv) x = G::fromV(G::rat ? mkq(1, 1) : mkf(1));
    size_t pc = 0;
    while (pc < P.size()) pc = execRange(g, pc);
  }
};

template<class I> struct PickSelf { typedef I type; };
} } // namespace dst
