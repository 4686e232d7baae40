// Harness API, implemented twice: by the symbolic runtime (sxrt.cpp) and natively (sxnative.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
  double  sx_real(const char* name, double lo, double hi);       // symbolic real in [lo,hi]
  int64_t sx_int(const char* name, int64_t lo, int64_t hi);      // symbolic 64-bit integer in [lo,hi]
  int     sx_int32(const char* name, int lo, int hi);
  char    sx_char(const char* name, int lo, int hi);
  void    sx_assume(bool cond);                                  // path ends when false
  void    sx_check(const char* label, bool cond);                // assertion
  void    sx_check_eq(const char* label, double a, double b);    // a == b over the reals
  void    sx_check_le(const char* label, double a, double b);    // a <= b over the reals
  void    sx_check_ieq(const char* label, int64_t a, int64_t b);
  void    sx_check_deriv(const char* label, double d, double f, double var); // d == df/dvar, var an input
  void    sx_check_const(const char* label, double a);           // a must not depend on any input
  void    sx_finish();
  int     sx_plain_zero(double a);                               // 1 when a is the constant zero (no input involved)
  int     sx_is_symbolic();                                      // 1 under the symbolic runtime
}
