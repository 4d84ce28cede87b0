// MPFR numbers as recorded.
#ifndef verif_mp_hpp
#define verif_mp_hpp
#include "trace.hpp"
#include <mpfr.h>
// An MPFR number as recorded: class, sign, mantissa of as many bits as the precision, exponent.
struct MP { int c, s; u128 m; long x; };
inline MP of_mpfr(mpfr_t t) {
  MP r = {0, 0, 0, 0};
  r.s = mpfr_signbit(t) ? 1 : 0;
  if (mpfr_nan_p(t)) { r.c = 3; return r; }
  if (mpfr_inf_p(t)) { r.c = 2; return r; }
  if (mpfr_zero_p(t)) return r;
  r.c = 1;
  mpz_t z; mpz_init(z);
  r.x = mpfr_get_z_2exp(z, t);
  mpz_abs(z, z);
  mpz_t hi; mpz_init(hi); mpz_tdiv_q_2exp(hi, z, 64); mpz_tdiv_r_2exp(z, z, 64);
  r.m = ((u128)mpz_get_ui(hi) << 64) | mpz_get_ui(z);
  mpz_clear(hi); mpz_clear(z);
  return r;
}
inline void set_mpfr(mpfr_t t, const MP &v) {       // the precision is set by the caller
  if (v.c == 3) { mpfr_set_nan(t); return; }
  if (v.c == 2) { mpfr_set_inf(t, v.s ? -1 : 1); return; }
  if (v.c == 0) { mpfr_set_zero(t, v.s ? -1 : 1); return; }
  mpz_t z; mpz_init(z);
  mpz_set_ui(z, (unsigned long)(v.m >> 64)); mpz_mul_2exp(z, z, 64); 
  mpz_t lo; mpz_init(lo); mpz_set_ui(lo, (unsigned long)v.m); mpz_add(z, z, lo); mpz_clear(lo);
  if (v.s) mpz_neg(z, z);
  mpfr_set_z_2exp(t, z, v.x, MPFR_RNDN);
  mpz_clear(z);
}
inline void put_mp(const MP &v) {
  out.line += '['; out.num(v.c); out.sep(); out.num(v.s); out.sep();
  if (v.c == 1) out.nat(v.m); else out.line += "[]";
  out.sep(); out.num(v.c == 1 ? v.x : 0); out.line += ']';
}
#endif
