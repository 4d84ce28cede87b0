"""C22: the sources of operands."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program

DECL = """
#include <random>
#include <array>
#include "thls/tops/function_utils.hpp"
#include "thls/tops/make_input.hpp"
#include "thls/tops/policy_flopoco.hpp"
// A generator that yields scripted words, then zeros, and counts what it gave.
struct Script {
  typedef uint32_t result_type;
  std::vector<uint32_t> w; size_t at;
  Script() : at(0) {}
  static constexpr uint32_t min() { return 0; }
  static constexpr uint32_t max() { return 0xFFFFFFFFu; }
  uint32_t operator()() { return at < w.size() ? w[at++] : (at++, 0u); }
};
struct Constant {
  typedef uint32_t result_type;
  uint32_t w;
  static constexpr uint32_t min() { return 0; }
  static constexpr uint32_t max() { return 0xFFFFFFFFu; }
  uint32_t operator()() { return w; }
};
static void put_line(const std::string &h) { out.flush(); out.line = "{" + h; }
static void end_line() { out.line += "}\\n"; fputs(out.line.c_str(), out.f); out.line.clear(); out.lines++; }
template<class F> static void probe(const std::string &v, int W, int words, Rng &r, long n, F draw) {
  put_line("\\"op\\":\\"bits\\",\\"v\\":\\"" + v + "\\",\\"whole\\":1,\\"w\\":" + S(W) + ",\\"base\\":");
  std::vector<uint32_t> z(words, 0);
  out.nat(draw(z));
  out.line += ",\\"flipped\\":[";
  for (int i = 0; i < 32 * words; i++) { std::vector<uint32_t> q = z; q[i / 32] ^= 1u << (i % 32); if (i) out.line += ','; out.nat(draw(q)); }
  out.line += "],\\"c\\":[";
  for (long k = 0; k < n; k++) {
    std::vector<uint32_t> q(words); std::string ones;
    for (int j = 0; j < words; j++) { q[j] = (uint32_t)r.next(); if (r.below(5) == 0) q[j] = r.coin() ? 0 : ~0u; }
    out.line += k ? ",[[" : "[["; bool first = true;
    for (int i = 0; i < 32 * words; i++) if ((q[i / 32] >> (i % 32)) & 1) { if (!first) out.line += ','; first = false; out.num(i); }
    out.line += "],"; out.nat(draw(q)); out.line += ']'; out.cases++;
  }
  out.line += ']'; end_line();
}
template<int W> static u128 draw_fn(const std::vector<uint32_t> &q) { Script s; s.w = q; u128 x = 0; guarded([&]() { x = from_fw<W>(thls::random_fw_uint<W>(s)); }); return x; }
template<int W> static u128 draw_ref(const std::vector<uint32_t> &q) { Script s; s.w = q; u128 x = 0; guarded([&]() { thls::fw_uint<W> y(0); thls::randomise(y, s); x = from_fw<W>(y); }); return x; }
template<int W> static void bits(uint64_t seed, long n) {
  Rng r(seed * 31 + W);
  probe("random_fw_uint", W, (W + 31) / 32 + 1, r, n, draw_fn<W>);
  probe("randomise", W, (W + 31) / 32 + 1, r, n / 4, draw_ref<W>);
}
template<int E,int F> struct Src {
  typedef thls::fp_flopoco_random_test_source<E,F> T;
  static typename T::Class cls(int k) { typename T::Class c[7] = {T::PosZero, T::NegZero, T::PosNormal, T::NegNormal, T::PosInf, T::NegInf, T::NaN}; return c[k]; }
  static u128 body(const std::vector<uint32_t> &q) {      // exponent and fraction of a positive normal
    Script s; s.w = q; V v = mkv(9, 0, 0, 0);
    guarded([&]() { T t; for (int k = 0; k < 7; k++) if (k != 2) t.disable_class(cls(k)); v = from_fp(t(s)); });
    return v.f | ((u128)v.e << F);
  }
  static void draws(T &t, Rng &r, long n) {
    out.group("\\"op\\":\\"draw\\",\\"v\\":\\"source\\",\\"whole\\":1,\\"fx\\":" + fmtj(E,F));
    std::mt19937 m((uint32_t)r.next());
    for (long i = 0; i < n; i++) {
      V v = mkv(9, 0, 0, 0);
      volatile int rc;
      uint32_t w = (uint32_t)r.next();
      if (i < 2) w = i ? ~0u : 0; else if (r.below(6) == 0) w = r.coin() ? r.below(4) : ~0u - r.below(4);
      if (i % 3 == 2) rc = guarded([&]() { v = from_fp(t(m)); });
      else { Constant c; c.w = w; rc = guarded([&]() { v = from_fp(t(c)); }); }
      if (rc) v = mkv(9, rc, 0, 0);
      out.begin_case(); out.val(v); out.end_case();
    }
    out.flush();
  }
  static void sweep(T &t, long n) {
    long count[8] = {0};
    for (long i = 0; i < n; i++) {
      Constant c; c.w = (uint32_t)(((u128)i << 32) / n + (((u128)1 << 32) / n) / 2);
      V v = mkv(9, 0, 0, 0);
      guarded([&]() { v = from_fp(t(c)); });
      int k = v.c == 9 ? 7 : v.c == 3 ? 6 : 2 * v.c + v.s;
      count[k]++;
    }
    put_line("\\"op\\":\\"sweep\\",\\"v\\":\\"source\\",\\"whole\\":1,\\"n\\":" + S(n - count[7]) + ",\\"count\\":[");
    for (int k = 0; k < 7; k++) { if (k) out.line += ','; out.num(count[k]); }
    out.line += ']'; out.cases += n; end_line();
  }
  static void go(uint64_t seed, int lives) {
    Rng r(seed * 77 + E * 131 + F);
    probe("source", E + F, (E + F) / 32 + 6, r, 40, body);
    for (int j = 0; j < lives; j++) {
      put_line("\\"op\\":\\"new\\",\\"v\\":\\"source\\",\\"whole\\":1"); end_line();
      T t;
      int left = 7; bool on[7]; for (int k = 0; k < 7; k++) on[k] = true;
      draws(t, r, 40); sweep(t, 3990);
      while (left > 1) {
        int k = r.below(7);
        if (on[k]) left--; on[k] = false;           // sometimes one already disabled
        t.disable_class(cls(k));
        put_line("\\"op\\":\\"disable\\",\\"v\\":\\"source\\",\\"whole\\":1,\\"k\\":" + S(k)); end_line();
        draws(t, r, 40);
        if (r.coin()) sweep(t, 1000 + r.below(3000));
      }
    }
  }
  static void inputs(int n) {
    std::vector<thls::fp_flopoco<E,F> > a;
    volatile int rc = guarded([&]() { thls::make_input(a, n); });
    list("make_input", n, a, rc);
  }
  static void pinputs(int n) {
    std::vector<thls::fp_flopoco_wrapper<E,F> > q; std::vector<thls::fp_flopoco<E,F> > a;
    volatile int rc = guarded([&]() { thls::test_policy<thls::policy_flopoco<E,F> >::make_input(q, n); });
    for (size_t i = 0; i < q.size(); i++) a.push_back(q[i].raw);
    list("test_policy", n, a, rc);
  }
  static void list(const std::string &v, int n, const std::vector<thls::fp_flopoco<E,F> > &a, int rc) {
    put_line("\\"op\\":\\"inputs\\",\\"v\\":\\"" + v + "\\",\\"whole\\":1,\\"fx\\":" + fmtj(E,F) + ",\\"n\\":" + S(n) + ",\\"c\\":[");
    for (size_t i = 0; i < a.size(); i++) { if (i) out.line += ','; out.val(from_fp(a[i])); }
    if (rc) { if (!a.empty()) out.line += ','; out.line += "[9,0,0,[]]"; }
    out.line += ']'; out.cases += a.size(); end_line();
  }
};
static std::vector<long> got;
static long f1(long a) { got.clear(); got.push_back(a); return a; }
static long f2(long a, long b) { got.clear(); got.push_back(a); got.push_back(b); return a; }
static long f3(long a, long b, long c) { f2(a, b); got.push_back(c); return a; }
static long f4(long a, long b, long c, long d) { f3(a, b, c); got.push_back(d); return a; }
static long f5(long a, long b, long c, long d, long e) { f4(a, b, c, d); got.push_back(e); return a; }
static long f8(long a, long b, long c, long d, long e, long f, long g, long h) { f5(a, b, c, d, e); got.push_back(f); got.push_back(g); got.push_back(h); return a; }
template<size_t N, class F> static void call(F f, Rng &r) {
  std::array<long,N> a; for (size_t i = 0; i < N; i++) a[i] = r.below(1000);
  long q = thls::callN(f, a);
  put_line("\\"op\\":\\"call\\",\\"v\\":\\"callN\\",\\"whole\\":1,\\"c\\":[[");
  for (size_t i = 0; i < N; i++) { out.num(a[i]); out.line += ','; } out.num(a[0]); out.line += "],[";
  for (size_t i = 0; i < got.size(); i++) { out.num(got[i]); out.line += ','; } out.num(q); out.line += "]]"; out.cases++; end_line();
}
static void calls(uint64_t seed) {
  Rng r(seed);
  for (int k = 0; k < 8; k++) { call<1>(f1, r); call<2>(f2, r); call<3>(f3, r); call<4>(f4, r); call<5>(f5, r); call<8>(f8, r); }
}
"""


def plan(seed, tier):
    r = rng(seed, "C22")
    quick = tier == "quick"
    shards = []
    ws = [1, 2, 7, 8, 31, 32, 33, 45, 63, 64, 65, 90, 95, 96, 97, 120] + [r.randint(1, 126) for _ in range(4 if quick else 60)]
    for k, part in enumerate(split(["    bits<%d>(seed, %d);\n" % (w, 60 if quick else 300) for w in ws], 2 if quick else 8)):
        shards.append(Shard("bits%02d" % k, program(["fp.hpp"], DECL, "".join(part) + ("    calls(seed);\n" if k == 0 else "")), spec="TraceSource"))
    fm = [(5, 10), (8, 23), (11, 52), (2, 1), (3, 4), (6, 33)] + [(r.randint(1, 12), r.randint(1, 60)) for _ in range(6 if quick else 60)]
    for k, part in enumerate(split(["    Src<%d,%d>::go(seed, %d);\n" % (e, f, 6 if quick else 40) for e, f in fm], 3 if quick else 12)):
        shards.append(Shard("src%02d" % k, program(["fp.hpp"], DECL, "".join(part)), spec="TraceSource"))
    fm = [(5, 10), (8, 23), (11, 52), (6, 6)] + [(r.randint(6, 12), r.randint(5, 60)) for _ in range(8 if quick else 60)]
    for k, part in enumerate(split(["    Src<%d,%d>::inputs(%d);\n    Src<%d,%d>::pinputs(%d);\n" % (e, f, n, e, f, n) for e, f in fm for n in (0, r.randint(100, 400))], 2 if quick else 12)):
        shards.append(Shard("inputs%02d" % k, program(["fp.hpp"], DECL, "".join(part)), spec="TraceSource"))
    return shards, []
