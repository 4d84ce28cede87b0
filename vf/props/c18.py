"""C18: software IEEE single and double arithmetic."""
from vf.core import Shard, Model
from vf.fmts import program

DECL = """
#include "thls/tops/policy_softfloat.hpp"
#include "mp.hpp"
static const char *names[] = {"min","max","lowest","infinity","quiet_NaN","denorm_min","epsilon","round_error"};
template<class T, class U, class P, int E, int F> struct SF {
  typedef std::numeric_limits<T> L;
  static T in(const V &v) { U b = ((U)v.s << (E+F)) | ((U)v.e << F) | (U)v.f; T t; memcpy(&t, &b, sizeof t); return t; }
  static V ex(const T &t) { U b; memcpy(&b, &t, sizeof b); return mkv(1, (int)(b >> (E+F)), (int)(b >> F) & ((1 << E) - 1), b & ((((U)1) << F) - 1)); }
  static V add(const V &x, const V &y) { return ex(in(x) + in(y)); }
  static V mul(const V &x, const V &y) { return ex(in(x) * in(y)); }
  static V div(const V &x, const V &y) { return ex(in(x) / in(y)); }
  static std::string head(const char *op) { return std::string("\\"op\\":\\"") + op + "\\",\\"v\\":\\"softfloat\\",\\"fx\\":" + fmtj(E,F); }
  static void rec(const Bin &b, V x, V y) { rec2(b, x, y); }
  // encodings with a chosen weight of the leading one, down into the subnormals
  static V at(Rng &r, int e, u128 f) {          // significand 1.f * 2^(e-bias), e may be negative
    if (e >= 1) return mkv(1, r.coin(), e > (1<<E)-2 ? (1<<E)-2 : e, f & mask128(F));
    int k = 1 - e; u128 s = (f & mask128(F)) | ((u128)1 << F);
    return mkv(1, r.coin(), 0, k > F ? 0 : s >> k);
  }
  static void arith(const Bin &b, uint64_t seed, long n, gen2 g) {
    Rng r(bin_seed(b, seed));
    out.group(binhead(b));
    int top = (1 << E) - 1, bias = top / 2;
    int es[] = {0, 1, 2, bias - 1, bias, bias + 1, top - 2, top - 1, top};
    std::vector<V> ls;
    for (int i = 0; i < 9; i++) for (int s = 0; s < 2; s++) {
      u128 fs[] = {0, 1, mask128(F), (u128)1 << (F-1), r.bits(F)};
      for (int j = 0; j < 5; j++) ls.push_back(mkv(1, s, es[i], fs[j])); }
    for (size_t i = 0; i < ls.size(); i++) for (size_t j = r.below(3); j < ls.size(); j += 3) rec2(b, ls[i], ls[j]);
    g(b, r, n);
    bool mul = !strcmp(b.op, "softmul"), div = !strcmp(b.op, "softdiv");
    for (long i = 0; i < n; i++) {
      V x = ie_value(r, E, F), y = ie_value(r, E, F);
      int want = 0;
      switch (r.below(6)) {
      case 0: break;
      case 1: // results around and below the smallest normal, with patterned fractions
      case 2: {
        want = 2 - (int)r.below(F + 6);
        if (mul) { int e1 = -F + (int)r.below(top + F); x = at(r, e1, frac_pattern(r, F)); y = at(r, want + bias - e1, frac_pattern(r, F)); }
        else if (div) { int e2 = -F + (int)r.below(top + F); y = at(r, e2, frac_pattern(r, F)); x = at(r, want + e2 - bias, frac_pattern(r, F)); }
        else { x = at(r, want, frac_pattern(r, F)); y = at(r, want + (int)r.below(5) - 2, frac_pattern(r, F)); }
        break; }
      case 3: // around overflow
        want = top - 2 + (int)r.below(4);
        if (mul) { int e1 = bias - 4 + (int)r.below(bias); x = at(r, e1, frac_pattern(r, F)); y = at(r, want + bias - e1, frac_pattern(r, F)); }
        else if (div) { int e2 = -F + (int)r.below(bias + F); y = at(r, e2, frac_pattern(r, F)); x = at(r, want + e2 - bias, frac_pattern(r, F)); }
        else { x = at(r, top - 1, frac_pattern(r, F)); y = at(r, top - 1 - (int)r.below(F + 3), frac_pattern(r, F)); }
        break;
      case 4: // short significands: exact and tied results among the subnormals
        if (mul) { int a = 1 + r.below(F); int e1 = -F + (int)r.below(top + F);
          x = at(r, e1, frac_tz(r, F, F - r.below(a + 1))); y = at(r, 1 - (int)r.below(F + 1) + bias - e1, frac_tz(r, F, r.below(F + 1))); }
        else if (div) { y = at(r, bias + (int)r.below(F), 0); x = at(r, 1 + (int)r.below(F), frac_pattern(r, F)); }
        else { int d = r.below(F + 3); int e = 1 + r.below(top - 2); x = at(r, e, frac_tz(r, F, r.below(2) ? F : 0)); y = at(r, e - d, frac_tz(r, F, d > 0 && d <= F ? d - 1 : r.below(F + 1))); }
        break;
      default: x = at(r, -F + (int)r.below(F + 6), frac_pattern(r, F)); if (r.coin()) std::swap(x, y); break;
      }
      if (r.below(12) == 0) { y.f = x.f; if (r.coin() && y.f > 0) y.f--; }      // (nearly) equal significands
      rec2(b, x, y);
    }
  }
  static void cmp(uint64_t seed, long n) {
    Rng r(seed * 31 + E);
    std::vector<V> vs = ie_values(r, E, F, 40);
    out.group(head("softcmp"));
    for (long i = 0; i < n; i++) {
      V x = vs[r.below(vs.size())], y = vs[r.below(vs.size())];
      switch (r.below(6)) {
      case 0: y = x; break;
      case 1: y = x; y.s = 1 - y.s; break;
      case 2: { U b = ((U)x.e << F) | (U)x.f; b += r.coin() ? 1 : -1; y = ex(in(mkv(1, 0, (int)(b >> F) & ((1 << E) - 1), b & mask128(F)))); y.s = x.s; break; }
      case 3: x = mkv(1, r.coin(), 0, 0); break;
      default: break;
      }
      int q[6] = {0,0,0,0,0,0};
      volatile int rc = guarded([&]() { T a = in(x), b = in(y); q[0] = a < b; q[1] = a <= b; q[2] = a == b; q[3] = a != b; q[4] = a >= b; q[5] = a > b; });
      out.begin_case(); put_enc(x); out.sep(); put_enc(y); out.sep();
      if (rc) out.line += "[9]"; else { out.line += '['; for (int k = 0; k < 6; k++) { if (k) out.sep(); out.num(q[k]); } out.line += ']'; }
      out.end_case();
    }
  }
  static V named(int i) {
    switch (i) { case 0: return ex(L::min()); case 1: return ex(L::max()); case 2: return ex(L::lowest()); case 3: return ex(L::infinity());
    case 4: return ex(L::quiet_NaN()); case 5: return ex(L::denorm_min()); case 6: return ex(L::epsilon()); default: return ex(L::round_error()); } }
  static void named_all() {
    for (int i = 0; i < 8; i++) {
      out.group(head("softnamed") + ",\\"name\\":\\"" + names[i] + "\\"");
      out.begin_case(); put_enc(named(i)); out.end_case();
    }
  }
  static void exchange(uint64_t seed, long n) {
    Rng r(seed * 77 + E);
    std::vector<V> vs = ie_values(r, E, F, n);
    out.group(head("softtompfr"));
    for (size_t i = 0; i < vs.size(); i++) {
      MP m = {9, 0, 0, 0};
      volatile int rc = guarded([&]() { mpfr_t t; mpfr_init2(t, F + 1); P::to_mpfr(t, in(vs[i])); m = of_mpfr(t); mpfr_clear(t); });
      if (rc) { m.c = 9; m.s = rc; }
      out.begin_case(); put_enc(vs[i]); out.sep(); put_mp(m); out.end_case();
    }
    // into fewer bits: exactly or not at all
    for (int p = 2; p <= F + 3; p += 1 + r.below(5)) {
      out.group(head("softtompfrbits") + ",\\"p\\":" + S(p));
      for (long i = 0; i < n / 60; i++) {
        V x = vs[r.below(vs.size())]; int drop = F + 1 - p;
        if (drop > 0 && r.below(3)) x.f &= ~(mask128(drop) >> r.below(2));
        MP m = {9, 0, 0, 0};
        volatile int rc = guarded([&]() { mpfr_t t; mpfr_init2(t, p); P::to_mpfr(t, in(x)); m = of_mpfr(t); mpfr_clear(t); });
        if (rc) { m.c = 9; m.s = rc; }
        out.begin_case(); put_enc(x); out.sep(); put_mp(m); out.end_case();
      }
    }
    // the reference operations refuse a result of another precision
    out.group(head("rejected"));
    for (int k = 0; k < 12; k++) {
      V x = ie_value(r, E, F); MP m = {0, 0, 0, 0};
      volatile int rc = guarded([&]() { mpfr_t a, b, q; mpfr_init2(a, F + 1); mpfr_init2(b, F + 1); mpfr_init2(q, k % 4 == 0 ? F : k % 4 == 1 ? F + 2 : k % 4 == 2 ? 2 : F + 30);
        P::to_mpfr(a, in(x)); P::to_mpfr(b, in(x)); if (k < 4) P::ref_add(q, a, b); else if (k < 8) P::ref_mul(q, a, b); else P::ref_div(q, a, b); });
      if (rc) { m.c = 9; m.s = rc; }
      out.begin_case(); put_enc(x); out.sep(); put_mp(m); out.end_case();
    }
    for (int allow = 0; allow < 2; allow++) {
      out.group(head("softfrommpfr") + ",\\"allow\\":" + S(allow));
      for (long i = 0; i < n; i++) {
        MP m = {1, (int)r.coin(), 0, 0};
        int p = r.coin() ? F + 1 : 2 + r.below(110);
        switch (r.below(8)) {
        case 0: m.c = r.below(4); break;
        default: break; }
        if (m.c == 1) {
          m.m = frac_pattern(r, p - 1) | ((u128)1 << (p - 1));
          int bias = (1 << (E - 1)) - 1;
          switch (r.below(4)) {
          case 0: m.x = -bias - F - 3 + (int)r.below(F + 8) - p; break;
          case 1: m.x = bias - 2 + (int)r.below(5) - p; break;
          default: m.x = -bias + (int)r.below(2 * bias) - p; }
          if (p > F + 1 && r.below(3) == 0) m.m &= ~mask128(p - F - 1);
        }
        V v = mkv(9, 0, 0, 0);
        volatile int rc = guarded([&]() { mpfr_t t; mpfr_init2(t, p); set_mpfr(t, m); v = ex(P::from_mpfr(t, allow)); mpfr_clear(t); });
        out.begin_case(); put_mp(m); out.sep();
        if (rc) { out.line += '['; out.num(9); out.sep(); out.num(rc); out.line += ",[]]"; } else put_enc(v);
        out.end_case();
      }
    }
  }
  static void all(const char *op, uint64_t seed, long n) {
    Bin a = {"softadd", "softfloat", E, F, E, F, E, F, add, 1}, m = {"softmul", "softfloat", E, F, E, F, E, F, mul, 1},
        d = {"softdiv", "softfloat", E, F, E, F, E, F, div, 1};
    if (*op == 'a') arith(a, seed, n, gen_add);
    if (*op == 'm') arith(m, seed, n, gen_mul);
    if (*op == 'd') arith(d, seed, n, gen_div);
    if (*op == 'c') { cmp(seed, n); named_all(); }
  }
};
"""


def plan(seed, tier):
    quick = tier == "quick"
    shards = []
    for name, t, u, p, e, f in [("f32", "float32_t", "uint32_t", "thls::policy_softfloat_single", 8, 23),
                                ("f64", "float64_t", "uint64_t", "thls::policy_softfloat_double", 11, 52)]:
        for op in "amdc":
            for part in range(1 if quick else 4):
                n = (25000 if op != "d" else 12000) if quick else 150000
                body = "    SF<%s,%s,%s,%d,%d>::all(\"%s\", seed + %d, %d);\n" % (t, u, p, e, f, op, 1000 * part, n)
                shards.append(Shard("%s_%s%d" % (name, op, part), program(["ieee.hpp"], DECL, body)))
    return shards, []
