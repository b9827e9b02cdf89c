// One configuration per translation unit: compiled with -DWORLD_<name>.
#if defined(WORLD_X87) || defined(WORLD_X87F) || defined(WORLD_X87L) || defined(WORLD_X87FAST) || defined(WORLD_X87FASTF) || defined(WORLD_X87FASTL)
// the x86 assembly rounding control instead of <fenv.h>
#  include <boost/config.hpp>
#  ifndef BOOST_NO_FENV_H
#    define BOOST_NO_FENV_H
#  endif
#  define _M_X64 1
#  include <boost/numeric/interval/hw_rounding.hpp>
#  undef _M_X64
#endif
#if defined(WORLD_X87FAST) || defined(WORLD_X87FASTF) || defined(WORLD_X87FASTL)
#  include <boost/numeric/interval/ext/x86_fast_rounding_control.hpp>
#endif
#include "world_impl.hpp"
#include <mpfr.h>

namespace dst { namespace {

#ifdef __SANITIZE_THREAD__
#define MEMW true
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define MEMW true
#endif
#endif
#ifndef MEMW
#define MEMW false
#endif

// A user-supplied rounding whose mathematical library rounds each direction itself.
inline void mset(mpfr_t a, float x) { mpfr_set_flt(a, x, MPFR_RNDN); }
inline void mset(mpfr_t a, double x) { mpfr_set_d(a, x, MPFR_RNDN); }
inline void mset(mpfr_t a, long double x) { mpfr_set_ld(a, x, MPFR_RNDN); }
inline void mget(float &x, mpfr_t a) { x = mpfr_get_flt(a, MPFR_RNDN); }
inline void mget(double &x, mpfr_t a) { x = mpfr_get_d(a, MPFR_RNDN); }
inline void mget(long double &x, mpfr_t a) { x = mpfr_get_ld(a, MPFR_RNDN); }
template<class T, class B> struct mpfr_transc : B {
  typedef int (*fn)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
  static T ev(fn f, T x, mpfr_rnd_t r) {
    typedef std::numeric_limits<T> L;
    OutLib o; NoPre np; unsigned m = hwSave();
    mpfr_t a, b; mpfr_init2(a, L::digits); mpfr_init2(b, L::digits);
    mset(a, x);
    int t = f(b, a, r);
    mpfr_exp_t e0 = mpfr_get_emin(), e1 = mpfr_get_emax();
    mpfr_set_emin(L::min_exponent - L::digits + 1); mpfr_set_emax(L::max_exponent);
    t = mpfr_check_range(b, t, r); mpfr_subnormalize(b, t, r);
    mpfr_set_emin(e0); mpfr_set_emax(e1);
    T d; mget(d, b); mpfr_clear(a); mpfr_clear(b);
    hwRestore(m);
    return d;
  }
#define F(f) T f##_down(T x) { return ev(mpfr_##f, x, MPFR_RNDD); } T f##_up(T x) { return ev(mpfr_##f, x, MPFR_RNDU); }
  F(exp) F(log) F(sin) F(cos) F(tan) F(asin) F(acos) F(atan) F(sinh) F(cosh) F(tanh) F(asinh) F(acosh) F(atanh)
#undef F
};

template<class T_, class WT_, class Rnd, class Chk> struct CfgBase {
  typedef T_ T; typedef WT_ WT; typedef Rnd rounding; typedef Chk checking;
  template<class I> using Pick = PickSelf<I>;
  static constexpr bool transc = false, root = true, x87 = false;
};
struct SimModes { static int mode() { return simMode; } static void setMode(int m) { simMode = m; } };
struct HwModes { static int mode() { return hwMode(); } static void setMode(int m) { hwSetMode(m); } };

typedef il::save_state<il::rounded_transc_opp<SimNum>> SimOpp;
typedef il::save_state<il::rounded_transc_std<SimNum>> SimStd;
// a user-supplied mathematical library that rounds each direction itself
template<class B> struct dir_transc : B {
  struct Keep { int m; Keep(int n) : m(simMode) { simMode = n; } ~Keep() { simMode = m; } };
#define F(f) SimNum f##_down(const SimNum &x) { Keep k(RD); SimNum r = dst::f(x); return SimFpu::force_rounding(r); } \
             SimNum f##_up(const SimNum &x) { Keep k(RU); SimNum r = dst::f(x); return SimFpu::force_rounding(r); }
  F(exp) F(log) F(sin) F(cos) F(tan) F(asin) F(acos) F(atan) F(sinh) F(cosh) F(tanh) F(asinh) F(acosh) F(atanh)
#undef F
};
typedef il::save_state<dir_transc<il::rounded_arith_opp<SimNum>>> SimMix;

#define WI(nm, sim, hw, rat, chk, cust, fmt, libm, fpu) \
  static WorldInfo info() { return {nm, sim, hw, rat, transc, root, MEMW, chk, cust, fmt, libm, fpu}; }

#if defined(WORLD_TOY_OPP_BASE)
struct Cfg : CfgBase<SimNum, double, SimOpp, SimChk<SimNum, il::checking_base<SimNum>>>, SimModes {
  static constexpr bool transc = true;
  WI("toy_opp_base", true, false, false, CK_BASE, false, 0, 0, true)
};
#elif defined(WORLD_TOY_STD_BASE)
struct Cfg : CfgBase<SimNum, double, SimStd, SimChk<SimNum, il::checking_base<SimNum>>>, SimModes {
  static constexpr bool transc = true;
  WI("toy_std_base", true, false, false, CK_BASE, false, 0, 0, true)
};
#elif defined(WORLD_TOY_OPP_STRICT)
struct Cfg : CfgBase<SimNum, double, SimOpp, SimChk<SimNum, il::checking_strict<SimNum>>>, SimModes {
  static constexpr bool transc = true;
  WI("toy_opp_strict", true, false, false, CK_STRICT, false, 0, 0, true)
};
#elif defined(WORLD_TOY_STD_CATCH)
struct Cfg : CfgBase<SimNum, double, SimStd, SimChk<SimNum, il::checking_catch_nan<SimNum, il::checking_no_empty<SimNum>>>>, SimModes {
  static constexpr bool transc = true;
  WI("toy_std_catch", true, false, false, CK_CATCH, false, 0, 0, true)
};
#elif defined(WORLD_TOY_OPP_CATCHBASE)
struct Cfg : CfgBase<SimNum, double, SimOpp, SimChk<SimNum, il::checking_catch_nan<SimNum, il::checking_base<SimNum>, throw_my_nan>>>, SimModes {
  static constexpr bool transc = true;
  WI("toy_opp_catchbase", true, false, false, CK_CATCHBASE, true, 0, 0, true)
};
#elif defined(WORLD_TOY_MIX_NOEMPTY)
struct Cfg : CfgBase<SimNum, double, SimMix, SimChk<SimNum, il::checking_no_empty<SimNum, il::checking_base<SimNum>, throw_my_empty>>>, SimModes {
  static constexpr bool transc = true;
  WI("toy_mix_noempty", true, false, false, CK_NOEMPTY, true, 0, 0, true)
};
#elif defined(WORLD_TOY_STD_NONAN)
struct Cfg : CfgBase<SimNum, double, SimStd, SimChk<SimNum, il::checking_no_nan<SimNum>>>, SimModes {
  static constexpr bool transc = true;
  WI("toy_std_nonan", true, false, false, CK_NONAN, false, 0, 0, true)
};
#elif defined(WORLD_RAT_EXACT)
struct Cfg : CfgBase<SimRat, int, il::rounded_math<SimRat>, SimChk<SimRat, NoInfChk<SimRat, il::checking_base<SimRat>>>>, SimModes {
  static constexpr bool root = false;
  WI("rat_exact", true, false, true, CK_BASE, false, 4, 0, false)
};
#elif defined(WORLD_RAT_TRANSC)
struct Cfg : CfgBase<SimRat, int, il::save_state_nothing<il::rounded_transc_exact<SimRat>>, SimChk<SimRat, NoInfChk<SimRat, il::checking_base<SimRat>>>>, SimModes {
  static constexpr bool transc = true, root = false;
  WI("rat_transc", true, false, true, CK_BASE, false, 4, 2, false)
};
#elif defined(WORLD_RAT_NOEMPTY)
struct Cfg : CfgBase<SimRat, int, il::rounded_math<SimRat>, SimChk<SimRat, NoInfChk<SimRat, il::checking_no_empty<SimRat, il::checking_base<SimRat>, throw_my_empty>>>>, SimModes {
  static constexpr bool root = false;
  WI("rat_noempty", true, false, true, CK_NOEMPTY, true, 4, 0, false)
};
#elif defined(WORLD_DBL_DEFAULT)
template<class I> struct PickDef { typedef bn::interval<double> type; };
struct Cfg : CfgBase<double, long double, il::rounded_math<double>, il::checking_strict<double>>, HwModes {
  template<class I> using Pick = PickDef<I>;
  WI("dbl_default", false, true, false, CK_STRICT, false, 2, 0, true)
};
#elif defined(WORLD_FLT_BASE)
struct Cfg : CfgBase<float, double, il::rounded_math<float>, SimChk<float, il::checking_base<float>>>, HwModes {
  WI("flt_opp_base", false, true, false, CK_BASE, false, 1, 0, true)
};
#elif defined(WORLD_LDBL_BASE)
struct Cfg : CfgBase<long double, double, il::rounded_math<long double>, SimChk<long double, il::checking_base<long double>>>, HwModes {
  WI("ldbl_opp_base", false, true, false, CK_BASE, false, 3, 0, true)
};
#elif defined(WORLD_DBL_STD)
struct Cfg : CfgBase<double, long double, il::save_state<il::rounded_transc_std<double, il::rounded_arith_std<double>>>, SimChk<double, il::checking_base<double>>>, HwModes {
  static constexpr bool transc = true;
  WI("dbl_std_libm", false, true, false, CK_BASE, false, 2, 1, true)
};
#elif defined(WORLD_DBL_OPP)
struct Cfg : CfgBase<double, float, il::save_state<il::rounded_transc_opp<double>>, SimChk<double, il::checking_catch_nan<double, il::checking_base<double>, throw_my_nan>>>, HwModes {
  static constexpr bool transc = true;
  WI("dbl_opp_libm", false, true, false, CK_CATCHBASE, true, 2, 1, true)
};
#elif defined(WORLD_DBL_MPFR)
struct Cfg : CfgBase<double, long double, il::save_state<mpfr_transc<double, il::rounded_arith_opp<double>>>, SimChk<double, il::checking_base<double>>>, HwModes {
  static constexpr bool transc = true;
  WI("dbl_opp_mpfr", false, true, false, CK_BASE, false, 2, 0, true)
};
#elif defined(WORLD_FLT_MPFR)
struct Cfg : CfgBase<float, double, il::save_state<mpfr_transc<float, il::rounded_arith_opp<float>>>, SimChk<float, il::checking_catch_nan<float, il::checking_base<float>, throw_my_nan>>>, HwModes {
  static constexpr bool transc = true;
  WI("flt_opp_mpfr", false, true, false, CK_CATCHBASE, true, 1, 0, true)
};
#elif defined(WORLD_LDBL_MPFR)
struct Cfg : CfgBase<long double, double, il::save_state<mpfr_transc<long double, il::rounded_arith_opp<long double>>>, SimChk<long double, il::checking_base<long double>>>, HwModes {
  static constexpr bool transc = true;
  WI("ldbl_opp_mpfr", false, true, false, CK_BASE, false, 3, 0, true)
};
#elif defined(WORLD_FLT_STD)
struct Cfg : CfgBase<float, long double, il::save_state<mpfr_transc<float, il::rounded_arith_std<float>>>, SimChk<float, il::checking_no_empty<float, il::checking_base<float>, throw_my_empty>>>, HwModes {
  static constexpr bool transc = true;
  WI("flt_std_noempty", false, true, false, CK_NOEMPTY, true, 1, 0, true)
};
#elif defined(WORLD_X87)
struct Cfg : CfgBase<double, float, il::rounded_math<double>, SimChk<double, il::checking_base<double>>>, HwModes {
  static constexpr bool x87 = true;
  WI("dbl_x87_base", false, true, false, CK_BASE, false, 2, 0, true)
};
#elif defined(WORLD_X87F)
struct Cfg : CfgBase<float, float, il::rounded_math<float>, SimChk<float, il::checking_base<float>>>, HwModes {
  static constexpr bool x87 = true;
  WI("flt_x87_base", false, true, false, CK_BASE, false, 1, 0, true)
};
#elif defined(WORLD_X87L)
struct Cfg : CfgBase<long double, double, il::rounded_math<long double>, SimChk<long double, il::checking_base<long double>>>, HwModes {
  WI("ldbl_x87_base", false, true, false, CK_BASE, false, 3, 0, true)
};
#elif defined(WORLD_X87FAST)
struct Cfg : CfgBase<double, float, il::save_state<il::rounded_arith_opp<double, il::x86_fast_rounding_control<double>>>, SimChk<double, il::checking_base<double>>>, HwModes {
  static constexpr bool x87 = true;
  WI("dbl_x87_fast", false, true, false, CK_BASE, false, 2, 0, true)
};
#elif defined(WORLD_X87FASTF)
struct Cfg : CfgBase<float, float, il::save_state<il::rounded_arith_std<float, il::x86_fast_rounding_control<float>>>, SimChk<float, il::checking_base<float>>>, HwModes {
  static constexpr bool x87 = true;
  WI("flt_x87_fast", false, true, false, CK_BASE, false, 1, 0, true)
};
#elif defined(WORLD_X87FASTL)
struct Cfg : CfgBase<long double, double, il::save_state<il::rounded_arith_opp<long double, il::x86_fast_rounding_control<long double>>>, SimChk<long double, il::checking_base<long double>>>, HwModes {
  WI("ldbl_x87_fast", false, true, false, CK_BASE, false, 3, 0, true)
};
#else
#error "no world"
#endif

static WorldT<Cfg> w;
static struct Init { Init() { w.info = Cfg::info(); } } init_;
static WorldReg reg_(&w);
} }
