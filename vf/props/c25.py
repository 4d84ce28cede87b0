"""C25: the self test of number types."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program

DECL = """
#include <map>
#include <fcntl.h>
#include "thls/tops/policy_flopoco.hpp"
static const char *OPN[9] = {"Equal", "NotEqual", "LessThan", "LessThanEqual", "GreaterThan", "GreaterThanEqual", "Mul", "Add", "Div"};
static void put_line(const std::string &h) { out.flush(); out.line = "{" + h; }
static void end_line() { out.line += "}\\n"; fputs(out.line.c_str(), out.f); out.line.clear(); out.lines++; }
// What disagreements are planted: in which operations, in the type or in its
// reference, how often and of which kind.  A function of the operands only.
struct Plan { uint64_t seed; int on, side, one_in, kind; V a, b; bool only; };
static Plan plan;
typedef std::pair<u128,u128> Pair;
static std::map<Pair,long> calls[9];
static long ncalls[9];
static u128 key(const V &v) { return v.c == 1 ? ((u128)1 << 126) | ((u128)v.s << 124) | ((u128)v.e << 100) | v.f : ((u128)v.c << 126) | ((u128)(v.c == 3 ? 0 : v.s) << 124); }
static bool planted(int op, int side, const V &a, const V &b) {
  if (!((plan.on >> op) & 1) || !((plan.side >> side) & 1)) return false;
  if (plan.only) return key(a) == key(plan.a) && key(b) == key(plan.b);
  Rng r(plan.seed + op * 3 + side + (uint64_t)(key(a) % 1000003) * 7919 + (uint64_t)(key(b) % 998244353) * 104729 + (uint64_t)(key(a) >> 100) * 31 + (uint64_t)(key(b) >> 100) * 17);
  return r.below(plan.one_in) == 0;
}
template<int E,int F> struct Val;
template<int E,int F> struct Num {
  typedef thls::fp_flopoco_wrapper<E,F> W;
  static V alter(const V &v, int op, int side, const V &a, const V &b) {
    Rng r(plan.seed * 5 + op + 77 * side + (uint64_t)key(a) + 3 * (uint64_t)key(b));
    int k = plan.kind < 8 ? plan.kind : r.below(8);
    V x = v;
    switch (k) {
      case 0: x.s = !x.s; break;
      case 1: return mkv(3, 0, 0, 0);
      case 2: return mkv(2, r.coin(), 0, 0);
      case 3: return mkv(0, r.coin(), 0, 0);
      case 4: if (v.c == 1 && F > 0) { x.f ^= 1; } else x = mkv(1, 0, 1, 0); break;
      case 5: break;
      case 6: x = mkv(1, r.coin(), r.below(1 << E), r.bits(F)); break;
      default: if (v.c == 1) x.e ^= 1; else x = mkv(1, 1, 1, 1); break;
    }
    return x;
  }
  static V right(int op, const V &a, const V &b) {
    W x(to_fp<E,F>(a)), y(to_fp<E,F>(b));
    return from_fp((op == 6 ? x * y : op == 7 ? x + y : x / y).raw);
  }
  static bool rel(int op, const V &a, const V &b) {
    W x(to_fp<E,F>(a)), y(to_fp<E,F>(b));
    return op == 0 ? x == y : op == 1 ? x != y : op == 2 ? x < y : op == 3 ? x <= y : op == 4 ? x > y : x >= y;
  }
  static bool got_rel(int op, const V &a, const V &b) { return rel(op, a, b) != planted(op, 0, a, b); }
  static V got(int op, const V &a, const V &b) { V v = right(op, a, b); return planted(op, 0, a, b) ? alter(v, op, 0, a, b) : v; }
  static V want(int op, const V &a, const V &b) { V v = right(op, a, b); return planted(op, 1, a, b) ? alter(v, op, 1, a, b) : v; }
};
template<int E,int F> struct Val {
  thls::fp_flopoco_wrapper<E,F> w;
  V v() const { return from_fp(w.raw); }
  static Val of(const V &v) { Val r; r.w = thls::fp_flopoco_wrapper<E,F>(to_fp<E,F>(v)); return r; }
  static void called(int op, const Val &a, const Val &b) { calls[op][Pair(key(a.v()), key(b.v()))]++; ncalls[op]++; }
  bool r(int op, const Val &b) const { called(op, *this, b); return Num<E,F>::got_rel(op, v(), b.v()); }
  Val a(int op, const Val &b) const { called(op, *this, b); return of(Num<E,F>::got(op, v(), b.v())); }
  bool operator==(const Val &b) const { return r(0, b); }
  bool operator!=(const Val &b) const { return r(1, b); }
  bool operator<(const Val &b) const { return r(2, b); }
  bool operator<=(const Val &b) const { return r(3, b); }
  bool operator>(const Val &b) const { return r(4, b); }
  bool operator>=(const Val &b) const { return r(5, b); }
  Val operator*(const Val &b) const { return a(6, b); }
  Val operator+(const Val &b) const { return a(7, b); }
  Val operator/(const Val &b) const { return a(8, b); }
};
namespace std {
template<int E,int F> struct numeric_limits<Val<E,F> > {
  typedef numeric_limits<thls::fp_flopoco_wrapper<E,F> > B;
  static const bool is_specialized = true;
  static const int digits = F + 1;
  static Val<E,F> min() { Val<E,F> r; r.w = B::min(); return r; }
  static Val<E,F> max() { Val<E,F> r; r.w = B::max(); return r; }
  static Val<E,F> infinity() { Val<E,F> r; r.w = B::infinity(); return r; }
  static Val<E,F> quiet_NaN() { Val<E,F> r; r.w = B::quiet_NaN(); return r; }
};
}
template<int E,int F> struct Pol {
  typedef Val<E,F> value_t;
  typedef thls::policy_flopoco<E,F> B;
  static value_t from_mpfr(mpfr_t x, bool allow = false) { value_t r; r.w = B::from_mpfr(x, allow); return r; }
  static void to_mpfr(mpfr_t d, value_t x) { B::to_mpfr(d, x.w); }
  static void ref(int op, mpfr_t d, mpfr_t a, mpfr_t b) { to_mpfr(d, value_t::of(Num<E,F>::want(op, from_mpfr(a).v(), from_mpfr(b).v()))); }
  static void ref_mul(mpfr_t d, mpfr_t a, mpfr_t b) { ref(6, d, a, b); }
  static void ref_add(mpfr_t d, mpfr_t a, mpfr_t b) { ref(7, d, a, b); }
  static void ref_div(mpfr_t d, mpfr_t a, mpfr_t b) { ref(8, d, a, b); }
};
// Runs f with the diagnostics going to a scratch file; returns their text.
template<class F> static std::string captured(F f) {
  FILE *t = tmpfile(); if (!t) exit(96);
  fflush(stderr); int keep = dup(2); dup2(fileno(t), 2);
  f();
  fflush(stderr); std::cerr.flush(); dup2(keep, 2); close(keep);
  std::string s; rewind(t); char b[4096]; size_t k;
  while ((k = fread(b, 1, sizeof b, t)) > 0) s.append(b, k);
  fclose(t); return s;
}
static void report(const std::string &v, const std::string &text, bool verdict, int rc) {
  long sum[4] = {-1, -1, -1, -1}; bool first = true;
  put_line("\\"op\\":\\"report\\",\\"v\\":\\"" + v + "\\",\\"whole\\":1,\\"rc\\":" + S(rc) + ",\\"failed\\":{");
  for (size_t at = 0; at < text.size();) {
    size_t e = text.find('\\n', at); if (e == std::string::npos) e = text.size();
    std::string ln = text.substr(at, e - at); at = e + 1;
    char name[64]; long p, q; int end = 0;
    if (sscanf(ln.c_str(), "%63[A-Za-z] : %ld / %ld failed%n", name, &p, &q, &end) == 3 && end == (int)ln.size()) {
      if (!first) out.line += ','; first = false;
      out.line += std::string("\\"") + name + "\\":[" + S(p) + "," + S(q) + "]";
    }
    long s4[4]; end = 0;
    if (sscanf(ln.c_str(), "%ld / %ld (%ld / %ld) Tests failed%n", s4, s4 + 1, s4 + 2, s4 + 3, &end) == 4 && end == (int)ln.size()) memcpy(sum, s4, sizeof sum);
  }
  out.line += "},\\"summary\\":[" + S(sum[0]) + "," + S(sum[1]) + "," + S(sum[2]) + "," + S(sum[3]) + "],\\"verdict\\":" + (verdict ? "true" : "false");
  end_line();
}
template<int E,int F> struct Self {
  typedef thls::test_policy<Pol<E,F> > T;
  static void run(const std::string &v, int n, uint64_t seed, int on, int side, int one_in, int kind, bool only) {
    plan.seed = seed; plan.on = 0; plan.side = side; plan.one_in = one_in; plan.kind = kind; plan.only = false;
    std::vector<Val<E,F> > in;
    volatile int rc = guarded([&]() { T::make_input(in, n); });
    std::map<u128,std::pair<V,long> > have; std::vector<u128> order;
    for (size_t i = 0; i < in.size(); i++) { std::pair<V,long> &p = have[key(in[i].v())]; if (!p.second) order.push_back(key(in[i].v())); p.first = in[i].v(); p.second++; }
    plan.on = on;
    if (only && !in.empty()) { Rng r(seed * 11); plan.only = true; plan.a = in[r.below(in.size())].v(); plan.b = r.coin() ? plan.a : in[r.below(in.size())].v(); }
    for (int k = 0; k < 9; k++) { calls[k].clear(); ncalls[k] = 0; }
    volatile bool verdict = false;
    std::string text = captured([&]() { rc = rc ? rc : guarded([&]() { verdict = T::test_arithmetic(n); }); });
    put_line("\\"op\\":\\"begin\\",\\"v\\":\\"" + v + "\\",\\"whole\\":1,\\"n\\":" + S(n) + ",\\"fx\\":" + fmtj(E,F) + ",\\"rc\\":" + S(rc) + ",\\"calls\\":{");
    for (int k = 0; k < 9; k++) out.line += std::string(k ? "," : "") + "\\"" + OPN[k] + "\\":[" + S(ncalls[k]) + "," + S(calls[k].size()) + "]";
    out.line += "},\\"a\\":[";
    for (size_t i = 0; i < order.size(); i++) { if (i) out.line += ','; out.line += '['; out.val(have[order[i]].first); out.line += ','; out.num(have[order[i]].second); out.line += ']'; }
    out.line += ']'; end_line();
    for (int op = 0; op < 9; op++) {
      out.group(std::string("\\"op\\":\\"plant\\",\\"v\\":\\"") + v + "\\",\\"whole\\":1,\\"what\\":\\"" + OPN[op] + "\\"");
      for (size_t i = 0; i < order.size(); i++) for (size_t j = 0; j < order.size(); j++) {
        V a = have[order[i]].first, b = have[order[j]].first;
        if (!planted(op, 0, a, b) && !planted(op, 1, a, b)) continue;
        out.begin_case(); out.num(i + 1); out.sep(); out.num(j + 1); out.sep();
        if (op < 6) { out.line += Num<E,F>::got_rel(op, a, b) ? "true" : "false"; out.sep(); out.line += Num<E,F>::rel(op, a, b) ? "true" : "false"; }
        else { out.val(Num<E,F>::got(op, a, b)); out.sep(); out.val(Num<E,F>::want(op, a, b)); }
        out.end_case();
      }
      out.flush();
    }
    report(v, text, verdict, rc);
  }
};
"""
SHIPPED = """
template<class P> static void shipped(const char *name, int n) {
  std::vector<typename P::value_t> in;
  volatile int rc = guarded([&]() { thls::test_policy<P>::make_input(in, n); });
  volatile bool verdict = true;
  std::string text = captured([&]() { rc = rc ? rc : guarded([&]() { verdict = thls::test_policy<P>::test_arithmetic(n); }); });
  put_line(std::string("\\"op\\":\\"begin\\",\\"v\\":\\"") + name + "\\",\\"whole\\":1,\\"n\\":" + S(n) + ",\\"rc\\":" + S(rc) + ",\\"calls\\":{");
  long k = in.size();
  for (int o = 0; o < 9; o++) out.line += std::string(o ? "," : "") + "\\"" + OPN[o] + "\\":[" + S(k * k) + ",1]";
  out.line += "},\\"a\\":[[[0,0,0,[]]," + S(k) + "]]"; end_line();
  report(name, text, verdict, rc);
  out.cases += k;
}
"""


def plan(seed, tier):
    r = rng(seed, "C25")
    quick = tier == "quick"
    shards = []
    fm = [(5, 5), (6, 3)] + [(r.randint(5, 8), r.randint(3, 12)) for _ in range(4 if quick else 30)]
    for k, (e, f) in enumerate(fm):
        body = "    typedef Self<%d,%d> T;\n" % (e, f)
        body += '    T::run("clean", 100, seed, 0, 0, 1, 0, false);\n'
        body += '    T::run("clean", %d, seed, 0, 0, 1, 0, false);\n' % r.choice([0, 170, 200, 230])
        for op in r.sample(range(9), 9 if k < 2 or not quick else 3):         # one disagreeing pair, in one operation
            body += '    T::run("one", 100, seed + %d, %d, %d, 1, %d, true);\n' % (op, 1 << op, 1 if op < 6 else r.choice([1, 2]), r.choice([0, 1, 2, 4]))
        for kind in range(9):                                                 # many of one kind
            body += '    T::run("kind%d", 100, seed + %d, %d, %d, %d, %d, false);\n' % (kind, kind, r.choice([511, r.randrange(64, 512), 448]), r.choice([1, 2, 3]), r.choice([1, 2, 5, 40]), kind)
        shards.append(Shard("self%02d" % k, program(["fp.hpp"], DECL, body), spec="TraceSelf"))
    fm = [(8, 23), (11, 52), (5, 10)] + [(r.randint(5, 11), r.randint(3, 52)) for _ in range(3 if quick else 20)]
    inc = '#include "thls/tops/policy_native.hpp"\n#include "thls/tops/policy_ieee_on_flopoco.hpp"\n'
    ps = ["thls::policy_flopoco<%d,%d>" % x for x in fm] + ["thls::policy_ieee_on_flopoco<%d,%d>" % x for x in fm] + \
         ["thls::policy_native_single", "thls::policy_native_double", "thls::policy_concept"]
    for k, part in enumerate(split(['    shipped<%s >("%s", %d);\n' % (p, p.replace("thls::", "").replace(",", "_"), r.choice([100, 260])) for p in ps], 3 if quick else 8)):
        shards.append(Shard("shipped%02d" % k, program(["fp.hpp"], DECL + inc + SHIPPED, "".join(part)), spec="TraceSelf"))
    body = '    shipped<thls::policy_softfloat_single>("softfloat_single", 100);\n    shipped<thls::policy_softfloat_double>("softfloat_double", 100);\n'
    shards.append(Shard("shippedsoft", program(["fp.hpp"], DECL + '#include "thls/tops/policy_softfloat.hpp"\n' + SHIPPED, body), spec="TraceSelf"))
    return shards, [Model("self", "SelfModel", min_states=1000)]
