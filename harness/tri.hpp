// Operations of three operands: a product and an addend.
#ifndef verif_tri_hpp
#define verif_tri_hpp
#include "gens.hpp"
typedef V (*fn3)(const V &, const V &, const V &);
struct Tri { const char *op, *v; int ex, fx, ey, fy, ez, fz, er, fr; fn3 f; };
static std::string head3(const Tri &t) {
  return std::string("\"op\":\"") + t.op + "\",\"v\":\"" + t.v + "\",\"fx\":" + fmtj(t.ex, t.fx) + ",\"fy\":" + fmtj(t.ey, t.fy) +
    ",\"fz\":" + fmtj(t.ez, t.fz) + ",\"fr\":" + fmtj(t.er, t.fr) + ",\"f\":[]";
}
static void rec3(const Tri &t, const V &x, const V &y, const V &z) {
  V r = mkv(9, 0, 0, 0);
  volatile int rc = guarded([&]() { r = t.f(x, y, z); });
  if (rc) r = mkv(9, rc, 0, 0);
  out.begin_case(); out.val(x); out.sep(); out.val(y); out.sep(); out.val(z); out.sep(); out.val(r); out.end_case();
}
static int blen(u128 x) { int n = 0; while (x) { n++; x >>= 1; } return n; }
static void fma_run(const Tri &t, uint64_t seed, long n) {
  std::string h = head3(t);
  Rng r(hash_str(h.c_str()) ^ (seed * 77777ull));
  out.group(h);
  int bx = (1 << (t.ex - 1)) - 1, by = (1 << (t.ey - 1)) - 1, bz = (1 << (t.ez - 1)) - 1, br = (1 << (t.er - 1)) - 1;
  int tx = (1 << t.ex) - 1, ty = (1 << t.ey) - 1, tz = (1 << t.ez) - 1;
  std::vector<V> sx = specials(r, t.ex, t.fx), sy = specials(r, t.ey, t.fy), sz = specials(r, t.ez, t.fz);
  if (t.ex + t.fx <= 5 && t.ey + t.fy <= 5 && t.ez + t.fz <= 5) {
    std::vector<V> ax = all_values(r, t.ex, t.fx), ay = all_values(r, t.ey, t.fy), az = all_values(r, t.ez, t.fz);
    long tot = (long)ax.size() * ay.size() * az.size(), step = tot / (4 * n) + 1;
    for (long i = r.below(step); i < tot; i += step)
      rec3(t, ax[i % ax.size()], ay[i / ax.size() % ay.size()], az[i / ax.size() / ay.size()]);
  }
  // specials against everything
  for (long i = 0; i < n / 3; i++) {
    int k = r.below(7) + 1;
    V x = (k & 1) ? sx[r.below(sx.size())] : norm_value(r, t.ex, t.fx);
    V y = (k & 2) ? sy[r.below(sy.size())] : norm_value(r, t.ey, t.fy);
    V z = (k & 4) ? sz[r.below(sz.size())] : norm_value(r, t.ez, t.fz);
    rec3(t, x, y, z);
  }
  for (long i = 0; i < n; i++) {
    V x = norm_value(r, t.ex, t.fx), y = norm_value(r, t.ey, t.fy), z = norm_value(r, t.ez, t.fz);
    if (r.coin()) x.f = frac_tz(r, t.fx, r.below(t.fx + 1));
    if (r.coin()) y.f = frac_tz(r, t.fy, r.below(t.fy + 1));
    // bring the product near the addend's range
    int want = (int)r.below(tz + 1) - bz;                  // exponent of z
    if (r.coin()) want = r.below(5) == 0 ? (int)r.below(2) - br + (int)r.below(3) : (int)r.below(9) - 4;
    else if (r.below(4) == 0) want = r.coin() ? tz - bz : (int)r.below(3) - bz;     // the ends of its range
    if (want < -bz) want = -bz; if (want > tz - bz) want = tz - bz;
    int gap = 0, span = t.fx + t.fy + t.fz + t.fr + 8;
    switch (r.below(8)) { case 0: gap = 0; break; case 1: gap = (int)r.below(2 * span) - span; break;
      case 2: gap = t.fr + (int)r.below(5) - 2; break; case 3: gap = -(t.fr + (int)r.below(5) - 2); break;
      case 4: gap = -(t.fx + t.fy + (int)r.below(6) - 2); break; case 5: gap = t.fz + (int)r.below(6) - 2; break;
      default: gap = (int)r.below(7) - 3; }
    int pe = want - gap;                                   // exponent wanted of the product
    int exlo = -bx, exhi = tx - bx, e1;
    // e1 + e2 = pe with both in range
    int lo = pe - (ty - by), hi = pe + by; if (lo < exlo) lo = exlo; if (hi > exhi) hi = exhi;
    e1 = lo > hi ? (lo > exhi ? exhi : exlo) : lo + (int)r.below(hi - lo + 1);
    x.e = clampe(e1 + bx, t.ex); y.e = clampe(pe - e1 + by, t.ey);
    z.e = clampe(want + bz, t.ez);
    int k = r.below(6);
    if (k <= 2 && t.fx + t.fy <= 124) {
      // cancellation: z is minus the product to z's width, perhaps a few units off
      u128 p = (((u128)1 << t.fx) | x.f) * (((u128)1 << t.fy) | y.f);
      int len = blen(p), e = (int)x.e - bx + (int)y.e - by + len - 1 - t.fx - t.fy;
      u128 m = len > t.fz + 1 ? p >> (len - t.fz - 1) : p << (t.fz + 1 - len);
      int d = (int)r.below(5) - 2; if (r.coin()) d = 0;
      if (k == 1) { int s = t.fz + 1 > 2 ? (int)r.below(t.fz + 1) : 0; m = (m >> s) << s; d = 0; }
      m += d;
      if (m >> (t.fz + 1)) { m >>= 1; e++; }
      if (!(m >> t.fz)) { m <<= 1; e--; }
      z.f = m & mask128(t.fz);
      z.e = clampe(e + bz, t.ez);
      z.s = 1 ^ x.s ^ y.s;
      if (r.below(5) == 0) z.s ^= 1;
    }
    rec3(t, x, y, z);
  }
}
#endif
