"""C06: IEEE interchange encodings."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program, sweep, wide

DECL = """
#include "thls/tops/fp_convert.hpp"
#include "thls/tops/fp_promote.hpp"
static const char *names[] = {"min","neg_min","max","neg_max","lowest","infinity","neg_infinity","quiet_NaN","denorm_min",
  "pos_zero","neg_zero","zero","pos_one","neg_one","one"};
template<int E,int F> struct I {
  typedef thls::fp_ieee<E,F> X; typedef thls::fp_flopoco<E,F> R;
  typedef std::numeric_limits<X> L;
  static V from(const V &x) { R r; thls::convert(r, to_ie<E,F>(x)); return from_fp(r); }
  static V fromp(const V &x) { R r; thls::promote(r, to_ie<E,F>(x)); return from_fp(r); }
  static V to(const V &x) { X r; thls::convert(r, to_fp<E,F>(x)); return from_ie(r); }
  static V named(const V &x) {
    switch (x.e) {
    case 0: return from_ie(L::min()); case 1: return from_ie(L::neg_min()); case 2: return from_ie(L::max());
    case 3: return from_ie(L::neg_max()); case 4: return from_ie(L::lowest()); case 5: return from_ie(L::infinity());
    case 6: return from_ie(L::neg_infinity()); case 7: return from_ie(L::quiet_NaN()); case 8: return from_ie(L::denorm_min());
    case 9: return from_ie(L::pos_zero()); case 10: return from_ie(L::neg_zero()); case 11: return from_ie(L::zero());
    case 12: return from_ie(L::pos_one()); case 13: return from_ie(L::neg_one()); default: return from_ie(L::one()); } }
  static V add(const V &x, const V &y) { return from_ie((thls::ref_add<E,F>(to_ie<E,F>(x), to_ie<E,F>(y)))); }
  static V mul(const V &x, const V &y) { return from_ie((thls::ref_mul<E,F>(to_ie<E,F>(x), to_ie<E,F>(y)))); }
  static V addd(const V &x, const V &y) { X r; thls::ref_add(r, to_ie<E,F>(x), to_ie<E,F>(y)); return from_ie(r); }
  static V muld(const V &x, const V &y) { X r; thls::ref_mul(r, to_ie<E,F>(x), to_ie<E,F>(y)); return from_ie(r); }
  static int cls(const V &v, int *p) {
    X x = to_ie<E,F>(v);
    int q[13] = {x.get_flags().to_int(), x.is_zero().to_int(), x.is_normal().to_int(), x.is_inf().to_int(), x.is_nan().to_int(),
      x.is_positive().to_int(), x.is_negative().to_int(), x.is_pos_normal().to_int(), x.is_neg_normal().to_int(),
      x.is_pos_zero().to_int(), x.is_neg_zero().to_int(), x.is_pos_inf().to_int(), x.is_neg_inf().to_int()};
    for (int i = 0; i < 13; i++) p[i] = q[i];
    return 0;
  }
  static int eq(const V &x, const V &y) { return to_ie<E,F>(x).equals(to_ie<E,F>(y)).to_int(); }
  static std::string head(const char *op, const char *v) {
    return std::string("\\"op\\":\\"") + op + "\\",\\"v\\":\\"" + v + "\\",\\"fx\\":" + fmtj(E,F) + ",\\"fr\\":" + fmtj(E,F); }
  static void go(uint64_t seed, long n) {
    Rng r(seed * 1009 + E * 131 + F);
    std::vector<V> vs = ie_values(r, E, F, n);
    out.group(head("fromieee", "convert"));
    for (size_t i = 0; i < vs.size(); i++) { V y = call1(from, vs[i]); out.begin_case(); put_ie(vs[i]); out.sep(); out.val(y); out.end_case(); }
    out.group(head("fromieee", "promote"));
    for (size_t i = 0; i < vs.size(); i++) { V y = call1(fromp, vs[i]); out.begin_case(); put_ie(vs[i]); out.sep(); out.val(y); out.end_case(); }
    out.group(head("toieee", "convert"));
    std::vector<V> fs = specials(r, E, F), l = landmarks(r, E, F);
    fs.insert(fs.end(), l.begin(), l.end());
    if (E + F <= 10) fs = all_values(r, E, F);
    for (long i = 0; i < n; i++) fs.push_back(any_value(r, E, F));
    for (size_t i = 0; i < fs.size(); i++) {
      V y = call1(to, fs[i]);
      out.begin_case(); out.val(fs[i]); out.sep(); put_ie(y); out.end_case(); }
    out.group(head("ieeeclass", "predicates"));
    for (size_t i = 0; i < vs.size(); i++) {
      int p[13]; for (int k = 0; k < 13; k++) p[k] = 9;
      V v = vs[i]; guarded([&]() { cls(v, p); });
      out.begin_case(); put_ie(v); out.line += ",["; for (int k = 0; k < 13; k++) { if (k) out.sep(); out.num(p[k]); } out.line += ']'; out.end_case(); }
    out.group(head("ieeeeq", "equals"));
    size_t lim = vs.size() < 130 ? vs.size() : 84;
    for (size_t i = 0; i < lim; i++) for (size_t j = 0; j < lim; j++) one(vs[i], vs[j], eq);
    for (long i = 0; i < n; i++) {
      V x = vs[r.below(vs.size())], y = x;
      switch (r.below(5)) { case 0: y.f ^= (u128)1 << r.below(F); break; case 1: y.s ^= 1; break;
        case 2: y.e ^= 1 << r.below(E); break; case 3: y = vs[r.below(vs.size())]; break; default: break; }
      one(x, y, eq); }
    for (unsigned i = 0; i < 15; i++) {
      out.group(head("ieeenamed", names[i]) + ",\\"name\\":\\"" + names[i] + "\\"");
      V y = call1(named, mkv(1, 0, i, 0)); out.begin_case(); put_ie(y); out.end_case(); }
    const char *op[4] = {"ieeeadd", "ieeemul", "ieeeadd", "ieeemul"}; fn2 f[4] = {add, mul, addd, muld};
    for (int k = 0; k < 4; k++) {
      out.group(head(op[k], k < 2 ? "ref" : "ref_dst") + ",\\"fy\\":" + fmtj(E,F));
      for (long i = 0; i < n; i++) {
        V x = ie_value(r, E, F), y = ie_value(r, E, F); V z = call2(f[k], x, y);
        out.begin_case(); put_ie(x); out.sep(); put_ie(y); out.sep(); put_ie(z); out.end_case(); } }
  }
  static void one(V x, V y, int (*f)(const V&, const V&)) {
    volatile int q = 9; guarded([&]() { q = f(x, y); });
    out.begin_case(); put_ie(x); out.sep(); put_ie(y); out.sep(); out.num(q); out.end_case(); }
};
template<int E,int F,int ER,int FR> struct P {
  static V prom(const V &x) { thls::fp_ieee<ER,FR> r; thls::promote(r, to_ie<E,F>(x)); return from_ie(r); }
  static V fl(const V &x) { thls::fp_flopoco<ER,FR> r; thls::promote(r, to_ie<E,F>(x)); return from_fp(r); }
  static V to(const V &x) { thls::fp_ieee<ER,FR> r; thls::promote(r, to_fp<E,F>(x)); return from_ie(r); }
  static std::string head(const char *op) {
    return std::string("\\"op\\":\\"") + op + "\\",\\"v\\":\\"promote\\",\\"fx\\":" + fmtj(E,F) + ",\\"fr\\":" + fmtj(ER,FR); }
  static void ieee(uint64_t seed, long n) {
    Rng r(seed * 1013 + E * 131 + F);
    std::vector<V> vs = ie_values(r, E, F, n);
    out.group(head("ieeeprom"));
    for (size_t i = 0; i < vs.size(); i++) { V y = call1(prom, vs[i]); out.begin_case(); put_ie(vs[i]); out.sep(); put_ie(y); out.end_case(); }
    out.group(head("fromieeeprom"));
    for (size_t i = 0; i < vs.size(); i++) { V y = call1(fl, vs[i]); out.begin_case(); put_ie(vs[i]); out.sep(); out.val(y); out.end_case(); }
  }
  static void flo(uint64_t seed, long n) {
    Rng r(seed * 1019 + E * 131 + F);
    std::vector<V> fs = specials(r, E, F), l = landmarks(r, E, F);
    fs.insert(fs.end(), l.begin(), l.end());
    if (E + F <= 10) fs = all_values(r, E, F);
    for (long i = 0; i < n; i++) fs.push_back(any_value(r, E, F));
    out.group(head("toieeeprom"));
    for (size_t i = 0; i < fs.size(); i++) { V y = call1(to, fs[i]); out.begin_case(); out.val(fs[i]); out.sep(); put_ie(y); out.end_case(); }
  }
};
"""


def plan(seed, tier):
    r = rng(seed, "C06")
    n = 1500 if tier == "quick" else 8000
    fm = [(5, 10), (8, 23), (11, 52), (3, 2), (4, 3), (2, 1), (2, 4), (4, 6), (3, 1), (5, 3), (8, 7), (8, 10), (12, 60), (15, 63), (6, 33)]
    fm += [(r.randint(2, 14), r.randint(1, 64)) for _ in range(10 if tier == "quick" else 80)]
    lines = ["    I<%d,%d>::go(seed, %d);\n" % (e, f, n) for e, f in fm]
    lines += ["    I<%d,%d>::go(seed, %d);\n" % (e, f, 150 if tier == "quick" else 1000) for e, f in sweep(seed, "C06", 1, 64, 2, 14)]
    lines += ["    I<%d,%d>::go(seed, %d);\n" % (e, f, 150 if tier == "quick" else 1000) for e, f in wide(seed, "C06", 8 if tier == "quick" else 60)]
    pr = [(5, 10, 8, 23), (8, 23, 11, 52), (3, 2, 5, 2), (3, 2, 3, 5), (4, 3, 5, 5), (2, 1, 3, 1), (5, 10, 6, 10), (8, 7, 8, 23), (8, 23, 15, 63)]
    for _ in range(12 if tier == "quick" else 100):
        e, f = r.randint(2, 10), r.randint(1, 50)
        pr.append((e, f, e + r.choice([0, 1, 1, 2, 4]), f + r.choice([0, 1, 3, 13])))
    for t in pr:
        if t[:2] != t[2:]:
            lines.append("    P<%d,%d,%d,%d>::ieee(seed, %d);\n" % (*t, n))
        if t[2] > t[0]:
            lines.append("    P<%d,%d,%d,%d>::flo(seed, %d);\n" % (*t, n))
    shards = []
    for k, part in enumerate(split(lines, 10 if tier == "quick" else 32)):
        shards.append(Shard("ieee%02d" % k, program(["ieee.hpp"], DECL, "".join(part))))
    quick_tier = tier == "quick"
    return shards, [Model("laws", "FPLaws", "FPLawsIEEE", env={} if quick_tier else {"BIG": "1"}, timeout=3000, workers=1, min_states=100)]
