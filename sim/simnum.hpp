// Simulated number types.
//  SimNum: a binary floating-point format with run-time precision, exponent
//    range, subnormals, infinities and NaN, optional extended intermediate
//    results (x87-like: only force_rounding narrows them), a simulated
//    per-thread rounding mode and a correctly rounded directed mathematical
//    library.  Every operation is a scheduling, interruption and failure point.
//  SimRat: exact rationals on 64-bit integers; overflow raises an exception.
#pragma once
#include "core.hpp"
#include <limits>
#include <ostream>

namespace dst {

extern Toy toy;                       // format of the run (set before tasks start)

class SimNum {
public:
  long double v;                      // exact value
  uint64_t tag;                       // says that an object lives at this address
  SimNum();
  SimNum(const SimNum &);
  SimNum &operator=(const SimNum &);
  ~SimNum();
  SimNum(int x); SimNum(unsigned x); SimNum(long x); SimNum(long long x); SimNum(unsigned long x);
  SimNum(float x); SimNum(double x); SimNum(long double x);
  struct Raw {};
  SimNum(Raw, long double x);         // no point, no rounding
  SimNum operator-() const;
  const SimNum &operator+() const;
  SimNum &operator+=(const SimNum &); SimNum &operator-=(const SimNum &);
  SimNum &operator*=(const SimNum &); SimNum &operator/=(const SimNum &);
};
SimNum operator+(const SimNum &, const SimNum &);
SimNum operator-(const SimNum &, const SimNum &);
SimNum operator*(const SimNum &, const SimNum &);
SimNum operator/(const SimNum &, const SimNum &);
bool operator<(const SimNum &, const SimNum &);
bool operator>(const SimNum &, const SimNum &);
bool operator<=(const SimNum &, const SimNum &);
bool operator>=(const SimNum &, const SimNum &);
bool operator==(const SimNum &, const SimNum &);
bool operator!=(const SimNum &, const SimNum &);
#define F(f) SimNum f(const SimNum &);
F(sqrt) F(exp) F(log) F(sin) F(cos) F(tan) F(asin) F(acos) F(atan) F(sinh) F(cosh) F(tanh) F(asinh) F(acosh) F(atanh) F(floor) F(ceil)
#undef F
std::ostream &operator<<(std::ostream &, const SimNum &);
std::wostream &operator<<(std::wostream &, const SimNum &);
std::string simText(long double);

// rounding control of SimNum (used by the rounding_control specialisation)
struct SimFpu {
  typedef int rounding_mode;
  static void get_rounding_mode(rounding_mode &m);
  static void set_rounding_mode(rounding_mode m);
  static void upward(); static void downward(); static void to_nearest(); static void toward_zero();
  static SimNum to_int(const SimNum &);
  static SimNum force_rounding(const SimNum &);
};
SimNum simPi(int which, bool up);     // which: 0 pi, 1 pi/2, 2 2pi; honours toy.pimode
long double roundToy(long double x, int mode); // harness helper: into the format

class SimRat {
public:
  int64_t n, d;
  uint64_t tag;                       // says that an object lives at this address
  SimRat(); SimRat(const SimRat &); SimRat &operator=(const SimRat &); ~SimRat();
  SimRat(int x); SimRat(unsigned x); SimRat(long x); SimRat(long long x); SimRat(unsigned long x);
  struct Raw {};
  SimRat(Raw, int64_t n, int64_t d);
  SimRat operator-() const;
  const SimRat &operator+() const;
  SimRat &operator+=(const SimRat &); SimRat &operator-=(const SimRat &);
  SimRat &operator*=(const SimRat &); SimRat &operator/=(const SimRat &);
};
SimRat operator+(const SimRat &, const SimRat &);
SimRat operator-(const SimRat &, const SimRat &);
SimRat operator*(const SimRat &, const SimRat &);
SimRat operator/(const SimRat &, const SimRat &);
bool operator<(const SimRat &, const SimRat &);
bool operator>(const SimRat &, const SimRat &);
bool operator<=(const SimRat &, const SimRat &);
bool operator>=(const SimRat &, const SimRat &);
bool operator==(const SimRat &, const SimRat &);
bool operator!=(const SimRat &, const SimRat &);
SimRat floor(const SimRat &); SimRat ceil(const SimRat &);
// a mathematical library that answers the nearest multiple of 2^-30
SimRat exp(const SimRat &); SimRat log(const SimRat &); SimRat sin(const SimRat &); SimRat cos(const SimRat &); SimRat tan(const SimRat &);
SimRat asin(const SimRat &); SimRat acos(const SimRat &); SimRat atan(const SimRat &); SimRat sinh(const SimRat &); SimRat cosh(const SimRat &);
SimRat tanh(const SimRat &); SimRat asinh(const SimRat &); SimRat acosh(const SimRat &); SimRat atanh(const SimRat &);
SimRat ratPi(int which, bool up);
std::ostream &operator<<(std::ostream &, const SimRat &);
std::wostream &operator<<(std::wostream &, const SimRat &);
std::string ratText(int64_t n, int64_t d);

} // namespace dst

namespace std {
template<> class numeric_limits<dst::SimNum> {
public:
  static constexpr bool is_specialized = true, has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false,
    is_signed = true, is_integer = false, is_exact = false, is_bounded = true, is_modulo = false, is_iec559 = false,
    traps = false, tinyness_before = false;
  static constexpr float_denorm_style has_denorm = denorm_present;
  static constexpr bool has_denorm_loss = false;
  static constexpr float_round_style round_style = round_indeterminate;
  static constexpr int digits = 0, digits10 = 0, max_digits10 = 0, radix = 2, min_exponent = 0, min_exponent10 = 0, max_exponent = 0, max_exponent10 = 0;
  static dst::SimNum min(); static dst::SimNum max(); static dst::SimNum lowest();
  static dst::SimNum epsilon(); static dst::SimNum round_error();
  static dst::SimNum infinity(); static dst::SimNum quiet_NaN(); static dst::SimNum signaling_NaN(); static dst::SimNum denorm_min();
};
template<> class numeric_limits<dst::SimRat> {
public:
  static constexpr bool is_specialized = true, has_infinity = false, has_quiet_NaN = false, has_signaling_NaN = false,
    is_signed = true, is_integer = false, is_exact = true, is_bounded = true, is_modulo = false, is_iec559 = false,
    traps = false, tinyness_before = false;
  static constexpr float_denorm_style has_denorm = denorm_absent;
  static constexpr bool has_denorm_loss = false;
  static constexpr float_round_style round_style = round_toward_zero;
  static constexpr int digits = 63, digits10 = 18, max_digits10 = 0, radix = 2, min_exponent = 0, min_exponent10 = 0, max_exponent = 0, max_exponent10 = 0;
  static dst::SimRat min(); static dst::SimRat max(); static dst::SimRat lowest();
  static dst::SimRat epsilon(); static dst::SimRat round_error();
  static dst::SimRat infinity(); static dst::SimRat quiet_NaN(); static dst::SimRat signaling_NaN(); static dst::SimRat denorm_min();
};
}
