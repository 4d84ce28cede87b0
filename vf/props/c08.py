"""C08: the value line, the limits, and the closeness predicates."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program, sweep, wide

DECL = """
#include <math.h>
static const char *names[] = {"min","neg_min","max","neg_max","lowest","infinity","neg_infinity","quiet_NaN","denorm_min",
  "pos_zero","neg_zero","zero","pos_one","neg_one","one"};
template<int E,int F> struct L {
  typedef thls::fp_flopoco<E,F> X;
  typedef std::numeric_limits<X> N;
  static V up(const V &x) { return from_fp(thls::nextup(to_fp<E,F>(x))); }
  static V down(const V &x) { return from_fp(thls::nextdown(to_fp<E,F>(x))); }
  static V aup(const V &x) { return from_fp(thls::nextafter(to_fp<E,F>(x), INFINITY)); }
  static V adown(const V &x) { return from_fp(thls::nextafter(to_fp<E,F>(x), -INFINITY)); }
  static V named(const V &x) {
    switch (x.e) {
    case 0: return from_fp(N::min()); case 1: return from_fp(N::neg_min()); case 2: return from_fp(N::max());
    case 3: return from_fp(N::neg_max()); case 4: return from_fp(N::lowest()); case 5: return from_fp(N::infinity());
    case 6: return from_fp(N::neg_infinity()); case 7: return from_fp(N::quiet_NaN()); case 8: return from_fp(N::denorm_min());
    case 9: return from_fp(N::pos_zero()); case 10: return from_fp(N::neg_zero()); case 11: return from_fp(N::zero());
    case 12: return from_fp(N::pos_one()); case 13: return from_fp(N::neg_one()); default: return from_fp(N::one()); } }
  static void cls(const V &v, int *p) {
    X x = to_fp<E,F>(v);
    int q[13] = {x.get_equality_class().to_int(), x.is_zero().to_int(), x.is_normal().to_int(), x.is_inf().to_int(), x.is_nan().to_int(),
      x.is_positive().to_int(), x.is_negative().to_int(), x.is_pos_normal().to_int(), x.is_neg_normal().to_int(),
      x.is_pos_zero().to_int(), x.is_neg_zero().to_int(), x.is_pos_inf().to_int(), x.is_neg_inf().to_int()};
    for (int i = 0; i < 13; i++) p[i] = q[i];
  }
  static void near(const V &x, const V &y) {
    int q[2] = {9, 9};
    guarded([&]() { int a = to_fp<E,F>(x).equals(to_fp<E,F>(y)).to_int(), b = to_fp<E,F>(x).within_1ulp(to_fp<E,F>(y)).to_int(); q[0] = a; q[1] = b; });
    out.begin_case(); out.val(x); out.sep(); out.val(y); out.line += ",["; out.num(q[0]); out.sep(); out.num(q[1]); out.line += ']'; out.end_case();
  }
  static std::string head(const char *op, const char *v) {
    return std::string("\\"op\\":\\"") + op + "\\",\\"v\\":\\"" + v + "\\",\\"fx\\":" + fmtj(E,F); }
  static void go(uint64_t seed, long n) {
    Rng r(seed * 1021 + E * 131 + F);
    std::vector<V> vs = specials(r, E, F);
    bool small = E + F <= 11;
    if (small) vs = all_values(r, E, F);
    else {
      std::vector<V> l = landmarks(r, E, F); vs.insert(vs.end(), l.begin(), l.end());
      for (long i = 0; i < n; i++) {
        V x = norm_value(r, E, F);
        switch (r.below(4)) { case 0: x.f = 0; break; case 1: x.f = mask128(F); break; default: break; }
        if (r.below(4) == 0) x.e = r.coin() ? 0 : (1 << E) - 1;
        vs.push_back(x);
      }
    }
    const char *vn[4] = {"nextup", "nextdown", "nextafter", "nextafter"};
    fn1 fs[4] = {up, down, aup, adown};
    for (int k = 0; k < 4; k++) {
      out.group(head(k % 2 ? "down" : "up", vn[k]));
      for (size_t i = 0; i < vs.size(); i++) { if (k > 1 && i % 3) continue; V y = call1(fs[k], vs[i]); out.begin_case(); out.val(vs[i]); out.sep(); out.val(y); out.end_case(); }
    }
    out.group(head("rejected", "nextafter"));
    for (int k = 0; k < 8; k++) { double to[] = {0.0, -0.0, 1.0, -2.5, 1e308, -1e308, 4e-324, NAN};
      V x = vs[r.below(vs.size())], y = mkv(0, 0, 0, 0); volatile int rc = guarded([&]() { y = from_fp(thls::nextafter(to_fp<E,F>(x), to[k])); });
      if (rc) y = mkv(9, rc, 0, 0); out.begin_case(); out.val(x); out.sep(); out.val(y); out.end_case(); }
    out.group(head("class", "predicates"));
    for (size_t i = 0; i < vs.size(); i++) {
      int p[13]; for (int k = 0; k < 13; k++) p[k] = 9;
      V v = vs[i]; guarded([&]() { cls(v, p); });
      out.begin_case(); out.val(v); out.line += ",["; for (int k = 0; k < 13; k++) { if (k) out.sep(); out.num(p[k]); } out.line += ']'; out.end_case(); }
    out.group(head("near", "equals, within_1ulp"));
    size_t lim = vs.size() < 100 ? vs.size() : 74;
    for (size_t i = 0; i < lim; i++) for (size_t j = 0; j < lim; j++) near(vs[i], vs[j]);
    for (long i = 0; i < n; i++) {
      V x = vs[r.below(vs.size())], y = x;
      u128 m = mask128(F); int top = (1 << E) - 1;
      int d = (int)r.below(5) - 2;                       // steps along the line
      switch (r.below(8)) {
      case 0: case 1: case 2:
        if (y.c == 1) { for (; d > 0; d--) { if (y.f == m) { y.f = 0; y.e = (y.e + 1) & top; } else y.f++; }
          for (; d < 0; d++) { if (y.f == 0) { y.f = m; y.e = (y.e - 1) & top; } else y.f--; } }
        break;
      case 3: y.f ^= (u128)1 << r.below(F); break;
      case 4: y.e = clampe(y.e + 1 - 2 * (int)r.coin(), E); break;
      case 5: y.s ^= 1; break;
      case 6: y.c = r.below(4); break;
      default: y = vs[r.below(vs.size())];
      }
      near(x, y);
    }
    for (unsigned i = 0; i < 15; i++) {
      out.group(head("named", names[i]) + ",\\"name\\":\\"" + names[i] + "\\"");
      V y = call1(named, mkv(1, 0, i, 0)); out.begin_case(); out.val(y); out.end_case(); }
  }
};
"""


CONST = """
#include "thls/tops/policy_flopoco.hpp"
#include "thls/tops/policy_ieee_on_flopoco.hpp"
#include "thls/tops/policy_softfloat.hpp"
template<class N> static void constants(const char *v, const char *kind, int E, int F) {
  out.group(std::string("\\"op\\":\\"constants\\",\\"v\\":\\"") + v + "\\",\\"kind\\":\\"" + kind + "\\",\\"fx\\":" + fmtj(E,F));
  long q[8] = {N::is_signed, N::is_integer, N::has_infinity, N::has_quiet_NaN, N::digits, N::radix, N::min_exponent, N::max_exponent};
  out.begin_case(); out.line += '['; for (int k = 0; k < 8; k++) { if (k) out.sep(); out.num(q[k]); } out.line += ']'; out.end_case();
}
template<int E,int F> static void each() {
  constants<std::numeric_limits<thls::fp_flopoco<E,F> > >("fp_flopoco", "flopoco", E, F);
  constants<std::numeric_limits<thls::fp_flopoco_wrapper<E,F> > >("fp_flopoco_wrapper", "flopoco", E, F);
  constants<std::numeric_limits<thls::fp_ieee<E,F> > >("fp_ieee", "ieee", E, F);
  constants<std::numeric_limits<thls::fp_ieee_on_flopoco_wrapper<E,F> > >("fp_ieee_on_flopoco_wrapper", "ieee", E, F);
}
"""


def plan(seed, tier):
    r = rng(seed, "C08")
    quick = tier == "quick"
    n = 2500 if quick else 20000
    fm = [(2, 1), (2, 2), (3, 1), (3, 2), (2, 4), (4, 3), (5, 2), (3, 5), (5, 5), (4, 6), (2, 8), (8, 2), (6, 1), (5, 10), (8, 7), (8, 10), (8, 23), (11, 52),
          (8, 21), (8, 22), (8, 24), (8, 31), (8, 32), (8, 33), (8, 53), (8, 54), (8, 55), (12, 60), (15, 63), (3, 64), (14, 64), (2, 29), (2, 61), (2, 62), (2, 63)]
    fm += [(r.randint(2, 14), r.randint(1, 64)) for _ in range(15 if quick else 150)]
    lines = ["    L<%d,%d>::go(seed, %d);\n" % (e, f, n) for e, f in fm]
    lines += ["    L<%d,%d>::go(seed, %d);\n" % (e, f, 150 if quick else 2000) for e, f in sweep(seed, "C08", 1, 64, 2, 14)]
    lines += ["    L<%d,%d>::go(seed, %d);\n" % (e, f, 150 if quick else 2000) for e, f in wide(seed, "C08", 10 if quick else 80)]
    shards = []
    for k, part in enumerate(split(lines, 8 if quick else 40)):
        shards.append(Shard("line%02d" % k, program(["gens.hpp"], DECL, "".join(part))))
    body = "".join("    each<%d,%d>();\n" % (e, f) for e, f in fm[:40] if e > 1)
    body += '    constants<std::numeric_limits<float32_t> >("float32_t", "standard", 8, 23);\n    constants<std::numeric_limits<float64_t> >("float64_t", "standard", 11, 52);\n'
    shards.append(Shard("constants", program(["gens.hpp"], CONST, body)))
    quick_tier = tier == "quick"
    return shards, [Model("laws", "FPLaws", "FPLawsOrder", env={} if quick_tier else {"BIG": "1"}, timeout=3000, workers=1, min_states=15000)]
