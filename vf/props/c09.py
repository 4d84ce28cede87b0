"""C09: exchange with MPFR, double, raw bits and text."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program, sweep, wide

DECL = """
#include <math.h>
#include <mpfr.h>
#include <sstream>
#include "mp.hpp"
static void put_double(double d) {
  uint64_t b; memcpy(&b, &d, 8);
  out.line += '['; out.num((long)(b >> 63)); out.sep(); out.num((long)((b >> 52) & 2047)); out.sep(); out.nat(b & ((1ull << 52) - 1)); out.line += ']';
}
static double mkd(int s, int e, uint64_t f) { uint64_t b = ((uint64_t)s << 63) | ((uint64_t)(e & 2047) << 52) | (f & ((1ull << 52) - 1)); double d; memcpy(&d, &b, 8); return d; }
template<bool ok> struct TD { template<int E, int F> static double f(const thls::fp_flopoco<E,F> &x) { return x.to_double(); } };
template<> struct TD<false> { template<int E, int F> static double f(const thls::fp_flopoco<E,F> &x) { return x.to_double_approx(); } };

template<int E,int F> struct X {
  typedef thls::fp_flopoco<E,F> T;
  static std::string head(const char *op, const char *v) {
    return std::string("\\"op\\":\\"") + op + "\\",\\"v\\":\\"" + v + "\\",\\"fx\\":" + fmtj(E,F); }
  static MP exp_(const V &x, int p, mpfr_rnd_t rnd, bool plain) {
    MP r = {9, 0, 0, 0};
    volatile int rc = guarded([&]() { mpfr_t t; mpfr_init2(t, p); if (plain) to_fp<E,F>(x).get(t); else to_fp<E,F>(x).get(t, rnd); r = of_mpfr(t); mpfr_clear(t); });
    if (rc) { r.c = 9; r.s = rc; }
    return r;
  }
  static V imp(const MP &m, int p, bool allow) {
    V r = mkv(9, 0, 0, 0);
    volatile int rc = guarded([&]() { mpfr_t t; mpfr_init2(t, p); set_mpfr(t, m); T y(t, allow); r = from_fp(y); mpfr_clear(t); });
    if (rc) r = mkv(9, rc, 0, 0);
    return r;
  }
  static V back(const V &x) { mpfr_t t; mpfr_init2(t, F + 1); to_fp<E,F>(x).get(t); T y(t); V r = from_fp(y); mpfr_clear(t); return r; }
  static V raw(const V &x) { return from_fp(T(to_fp<E,F>(x).bits)); }
  static V viad(const V &x) { return from_fp(T(TD<(E <= 11 && F <= 52)>::f(to_fp<E,F>(x)))); }
  static std::vector<V> values(Rng &r, long n) {
    std::vector<V> vs;
    if (E + F <= 10) return all_values(r, E, F);
    vs = specials(r, E, F);
    std::vector<V> l = landmarks(r, E, F); vs.insert(vs.end(), l.begin(), l.end());
    for (long i = 0; i < n; i++) vs.push_back(any_value(r, E, F));
    return vs;
  }
  static void go(uint64_t seed, long n) {
    Rng r(seed * 1031 + E * 131 + F);
    std::vector<V> vs = values(r, n);
    out.per = 24;
    // bits
    out.group(head("fields", "raw"));
    for (size_t i = 0; i < vs.size(); i++) {
      V x = vs[i], y = mkv(9,0,0,0); u128 b = 0, ef = 0, fef = 0;
      guarded([&]() { T t = to_fp<E,F>(x); b = from_fw<E+F+3>(t.bits); V z = from_fp(T(t.bits));
        ef = from_fw<E+F>(t.get_exp_frac_bits()); fef = from_fw<E+F+2>(t.get_flags_exp_frac_bits());
        T q(t.get_flags(), t.get_sign(), t.get_exp_bits(), t.get_frac_bits());
        V w = mkv((int)from_fw<2>(t.get_flags()), (int)from_fw<1>(t.get_sign()), (int)from_fw<E>(t.get_exp_bits()), from_fw<F>(t.get_frac_bits()));
        y = (q.bits == t.bits).to_bool() && w.c == z.c && w.s == z.s && w.e == z.e && w.f == z.f ? z : mkv(9, 3, 0, 0); });
      out.begin_case(); out.val(x); out.line += ",["; out.nat(b); out.sep(); out.val(y); out.sep(); out.nat(ef); out.sep(); out.nat(fef); out.line += ']'; out.end_case();
    }
    // text
    out.group(head("text", "str"));
    for (size_t i = 0; i < vs.size() && i < 300; i++) {
      V x = vs[i]; std::string s = "?";
      guarded([&]() { if (i % 2) s = to_fp<E,F>(x).str(); else { std::stringstream q; q << to_fp<E,F>(x); s = q.str(); } });
      size_t k = s.find(" ~="); if (k != std::string::npos) s.resize(k);
      out.begin_case(); out.val(x); out.line += ",\\"" + s + "\\""; out.end_case();
    }
    // MPFR, out
    out.group(head("tompfr", "get") + ",\\"p\\":" + S(F + 1) + ",\\"rnd\\":\\"n\\"");
    for (size_t i = 0; i < vs.size(); i++) { MP m = exp_(vs[i], F + 1, MPFR_RNDN, true); out.begin_case(); out.val(vs[i]); out.sep(); put_mp(m); out.end_case(); }
    const char *rn[5] = {"n", "z", "u", "d", "a"}; mpfr_rnd_t rs[5] = {MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA};
    int ps[5] = {F + 1, F > 1 ? F : 2, F > 6 ? F / 2 : 2, 2, F + 14 > 127 ? 127 : F + 14};
    for (int k = 0; k < 5; k++) for (int j = 0; j < 5; j++) {
      if (ps[k] < 2) continue;
      out.group(head("tompfr", "get_rounded") + ",\\"p\\":" + S(ps[k]) + ",\\"rnd\\":\\"" + rn[j] + "\\"");
      int drop = F + 1 - ps[k];
      for (long i = 0; i < n / 12; i++) {
        V x = i < 8 ? vs[r.below(vs.size())] : norm_value(r, E, F);
        if (drop > 0 && drop <= F && r.coin()) x.f = (x.f & ~mask128(drop)) | ((((u128)1 << (drop - 1)) + (u128)r.below(3) - 1) & mask128(drop));
        MP m = exp_(x, ps[k], rs[j], false); out.begin_case(); out.val(x); out.sep(); put_mp(m); out.end_case(); }
    }
    out.group(head("rejected", "get"));
    for (int k = 0; k < 4; k++) { V x = vs[r.below(vs.size())]; MP m = exp_(x, k % 2 ? F + 2 : F > 1 ? F : F + 3, MPFR_RNDN, true); out.begin_case(); out.val(x); out.sep(); put_mp(m); out.end_case(); }
    // MPFR, in
    for (int allow = 0; allow < 2; allow++) {
      out.group(head("frommpfr", "ctor") + ",\\"allow\\":" + S(allow));
      int bias = (1 << (E - 1)) - 1;
      for (long i = 0; i < n; i++) {
        MP m; m.c = 1; m.s = r.coin(); m.m = frac_pattern(r, F) | ((u128)1 << F);
        int k = r.below(12); if (k < 3) m.c = k == 1 ? 3 : k;
        long e;
        switch (r.below(6)) { case 0: e = -bias - 2 + (int)r.below(4); break; case 1: e = bias - 1 + (int)r.below(4); break;
          case 2: e = -bias - (int)r.below(4 * bias + 9); break; case 3: e = bias + (int)r.below(4 * bias + 9); break; default: e = (long)r.below(2 * bias + 2) - bias; }
        m.x = e - F;
        if (m.c == 3) m.s = 0;
        V y = imp(m, F + 1, allow); out.begin_case(); put_mp(m); out.sep(); out.val(y); out.end_case(); }
    }
    out.group(head("rejected", "ctor"));
    for (int k = 0; k < 4; k++) { MP m = {1, 0, 3, 0}; V y = imp(m, k % 2 ? F + 2 : F > 1 ? F : F + 3, true); out.begin_case(); put_mp(m); out.sep(); out.val(y); out.end_case(); }
    { Un u = {"conv", "mpfr_back", E, F, E, F, back}; run_un(u, seed, n / 3); }
    { Un u = {"conv", "raw_back", E, F, E, F, raw}; run_un(u, seed, n / 3); }
    // double
    out.group(head("todouble", E <= 11 && F <= 52 ? "to_double" : "to_double_approx"));
    for (size_t i = 0; i < vs.size(); i++) { double d = 1.25; V x = vs[i]; guarded([&]() { d = TD<(E <= 11 && F <= 52)>::f(to_fp<E,F>(x)); }); out.begin_case(); out.val(x); out.sep(); put_double(d); out.end_case(); }
    out.group(head("todouble", "to_double_approx"));
    for (size_t i = 0; i < vs.size(); i += 3) { double d = 1.25; V x = vs[i]; guarded([&]() { d = to_fp<E,F>(x).to_double_approx(); }); out.begin_case(); out.val(x); out.sep(); put_double(d); out.end_case(); }
    out.group(head("fromdouble", "ctor"));
    int bias = (1 << (E - 1)) - 1;
    for (long i = 0; i < n; i++) {
      int e; uint64_t f = (uint64_t)frac_pattern(r, 52);
      switch (r.below(7)) { case 0: e = 1023 - bias - 2 + (int)r.below(4); break; case 1: e = 1023 + bias - 1 + (int)r.below(4); break;
        case 2: e = r.below(2048); break; case 3: e = r.below(3); break; case 4: e = 2047 - r.below(2); if (r.coin()) f = 0; break; default: e = 1023 + (int)r.below(9) - 4; }
      if (e < 0) e = 0; if (e > 2047) e = 2047;
      if (r.below(20) == 0) f = 0;
      if (F < 52 && r.below(3) == 0) f = (f & ~(uint64_t)mask128(52 - F)) | (r.coin() ? 0 : (uint64_t)mask128(52 - F));
      double d = mkd(r.coin(), e, f);
      V y = mkv(9, 0, 0, 0); volatile int rc = guarded([&]() { y = from_fp(T(d)); }); if (rc) y = mkv(9, rc, 0, 0);
      out.begin_case(); put_double(d); out.sep(); out.val(y); out.end_case(); }
    out.per = 48;
    if (E <= 10 && F <= 52) { Un u = {"conv", "double_back", E, F, E, F, viad}; run_un(u, seed, n / 3); }
  }
};
template<bool ok> struct IT { template<int E,int F> static void go(const std::vector<V> &vs, const std::string &head) {
    out.group(head);
    for (size_t i = 0; i < vs.size() && i < 300; i++) {
      V x = vs[i]; std::string s = "?";
      guarded([&]() { s = to_ie<E,F>(x).str(); });
      size_t k = s.find("= (approx)"); if (k != std::string::npos) s.resize(k);
      out.begin_case(); put_ie(x); out.line += ",\\"" + s + "\\""; out.end_case(); } } };
template<> struct IT<false> { template<int E,int F> static void go(const std::vector<V> &, const std::string &) {} };
template<int E,int F> struct IE {
  typedef thls::fp_ieee<E,F> T;
  static std::string head(const char *op, const char *v) {
    return std::string("\\"op\\":\\"") + op + "\\",\\"v\\":\\"" + v + "\\",\\"fx\\":" + fmtj(E,F); }
  static void go(uint64_t seed, long n) {
    Rng r(seed * 1033 + E * 131 + F);
    std::vector<V> vs = ie_values(r, E, F, n);
    out.per = 24;
    const char *rn[6] = {"n", "n", "z", "u", "d", "a"}; mpfr_rnd_t rs[6] = {MPFR_RNDN, MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA};
    int ps[5] = {F + 1, F > 1 ? F : 2, F > 6 ? F / 2 : 2, 2, F + 14 > 127 ? 127 : F + 14};
    for (int k = 0; k < 5; k++) for (int j = 0; j < 6; j++) {
      if (k && !j) continue;                         // the form without a mode demands the exact precision
      out.group(head("ieeetompfr", j ? "get_rounded" : "get") + ",\\"p\\":" + S(ps[k]) + ",\\"rnd\\":\\"" + rn[j] + "\\"");
      int drop = F + 1 - ps[k];
      long lim = j ? n / 12 : (long)vs.size();
      for (long i = 0; i < lim; i++) { V x = j ? vs[r.below(vs.size())] : vs[i]; MP m = {9, 0, 0, 0};
        if (j && drop > 0 && drop <= F && r.coin()) x.f = (x.f & ~mask128(drop)) | ((((u128)1 << (drop - 1)) + (u128)r.below(3) - 1) & mask128(drop));
        volatile int rc = guarded([&]() { mpfr_t t; mpfr_init2(t, ps[k]); if (j) to_ie<E,F>(x).get(t, rs[j]); else to_ie<E,F>(x).get(t); m = of_mpfr(t); mpfr_clear(t); });
        if (rc) { m.c = 9; m.s = rc; }
        out.begin_case(); put_ie(x); out.sep(); put_mp(m); out.end_case(); } }
    out.group(head("rejected", "get"));
    for (int k = 0; k < 4; k++) { V x = vs[r.below(vs.size())]; MP m = {0, 0, 0, 0};
      volatile int rc = guarded([&]() { mpfr_t t; mpfr_init2(t, k % 2 ? F + 2 : F > 1 ? F : F + 3); to_ie<E,F>(x).get(t); });
      if (rc) { m.c = 9; m.s = rc; } out.begin_case(); put_ie(x); out.sep(); put_mp(m); out.end_case(); }
    out.group(head("rejected", "ctor"));
    for (int k = 0; k < 4; k++) { MP m = {k > 1, 0, (u128)1 << F, -F}; V y = mkv(0, 0, 0, 0);
      volatile int rc = guarded([&]() { mpfr_t t; mpfr_init2(t, k % 2 ? F + 2 : F > 1 ? F : F + 3); set_mpfr(t, m); T q(t, true); });
      if (rc) y = mkv(9, rc, 0, 0); out.begin_case(); put_mp(m); out.sep(); out.val(y); out.end_case(); }
    for (int allow = 0; allow < 2; allow++) {
      out.group(head("ieeefrommpfr", "ctor") + ",\\"allow\\":" + S(allow));
      int bias = (1 << (E - 1)) - 1;
      for (long i = 0; i < n; i++) {
        MP m; m.c = 1; m.s = r.coin(); m.m = frac_pattern(r, F) | ((u128)1 << F);
        int k = r.below(12); if (k < 3) m.c = k == 1 ? 3 : k;
        long e; switch (r.below(4)) { case 0: e = -bias - 2 + (int)r.below(5); break; case 1: e = bias - 1 + (int)r.below(4); break; case 2: e = (long)r.below(8 * bias + 2) - 4 * bias; break; default: e = (long)r.below(2 * bias + 1) - bias; }
        m.x = e - F;
        if (m.c == 3) m.s = 0;
        V y = mkv(1, 9, 0, 0); volatile int rc = guarded([&]() { mpfr_t t; mpfr_init2(t, F + 1); set_mpfr(t, m); if (allow) { T q(t, true); y = from_ie(q); } else { T q(t); y = from_ie(q); } mpfr_clear(t); });
        if (rc) y = mkv(1, 9, rc, 0);
        out.begin_case(); put_mp(m); out.sep(); put_ie(y); out.end_case(); } }
    out.group(head("ieeetodouble", "to_double_approx"));
    for (size_t i = 0; i < vs.size(); i++) { double d = 1.25; V x = vs[i]; guarded([&]() { d = to_ie<E,F>(x).to_double_approx(); }); out.begin_case(); put_ie(x); out.sep(); put_double(d); out.end_case(); }
    IT<(F < 31)>::template go<E,F>(vs, head("ieeetext", "str"));
  }
};
"""


def plan(seed, tier):
    r = rng(seed, "C09")
    quick = tier == "quick"
    n = 1000 if quick else 6000
    fm = [(2, 1), (3, 2), (4, 3), (5, 5), (3, 6), (2, 8), (5, 10), (8, 7), (8, 10), (8, 23), (11, 52), (10, 52), (11, 51), (11, 30), (8, 30), (8, 31), (8, 32),
          (9, 33), (8, 53), (12, 60), (15, 63), (3, 64), (14, 64), (10, 40), (4, 52), (12, 10)]
    fm += [(r.randint(2, 14), r.randint(1, 64)) for _ in range(8 if quick else 120)]
    lines = ["    X<%d,%d>::go(seed, %d);\n" % (e, f, n) for e, f in fm]
    lines += ["    X<%d,%d>::go(seed, %d);\n" % (e, f, 100 if quick else 1000) for e, f in sweep(seed, "C09", 1, 64, 2, 14)]
    lines += ["    X<%d,%d>::go(seed, %d);\n" % (e, f, 100 if quick else 1000) for e, f in wide(seed, "C09", 10 if quick else 80)]
    im = [(5, 10), (8, 23), (11, 52), (3, 2), (4, 6), (2, 3), (12, 60), (15, 63)] + [(r.randint(2, 14), r.randint(1, 64)) for _ in range(4 if quick else 40)]
    lines += ["    IE<%d,%d>::go(seed, %d);\n" % (e, f, n) for e, f in im]
    shards = []
    for k, part in enumerate(split(lines, 8 if quick else 40)):
        shards.append(Shard("exch%02d" % k, program(["ieee.hpp"], DECL, "".join(part))))
    return shards, []
