"""C13: dot products of positive values, rounded down."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program

DECL = """
#include "thls/tops/fp_flopoco_dot%(N)d_pos_rndd.hpp"
typedef V (*fnd)(const V *);      // x0, y0, x1, y1, ...
struct Dot { const char *v; int n, e, f; fnd fn; };
static void recd(const Dot &d, const V *a) {
  V r = mkv(9, 0, 0, 0);
  volatile int rc = guarded([&]() { r = d.fn(a); });
  if (rc) r = mkv(9, rc, 0, 0);
  out.begin_case();
  for (int i = 0; i < 2 * d.n; i++) { out.val(a[i]); out.sep(); }
  out.val(r); out.end_case();
}
static int pick_split(Rng &r, int tot, int top) {     // an exponent e1 with e1 and tot - e1 in 0..top
  int lo = tot - top, hi = tot; if (lo < 0) lo = 0; if (hi > top) hi = top;
  return lo > hi ? (tot < 0 ? 0 : top) : lo + (int)r.below(hi - lo + 1);
}
static void set_exp(Rng &r, V *p, int tot, int top) {
  if (tot < 0) tot = 0; if (tot > 2 * top) tot = 2 * top;
  p[0].e = pick_split(r, tot, top); p[1].e = tot - p[0].e;
}
static void go_dot(const Dot &d, uint64_t seed, long n) {
  std::string h = std::string("\\"op\\":\\"dot\\",\\"v\\":\\"") + d.v + "\\",\\"fx\\":" + fmtj(d.e, d.f) + ",\\"fr\\":" + fmtj(d.e, d.f) + ",\\"f\\":[]";
  Rng r(hash_str(h.c_str()) ^ (seed * 77777ull));
  out.group(h);
  int E = d.e, FB = d.f, top = (1 << E) - 1, bias = (1 << (E - 1)) - 1;
  V a[8];
  int N = d.n;
  // every combination, for tiny formats
  int vals = 1 << (E + FB);
  double tot = 1; for (int i = 0; i < 2 * N; i++) tot *= vals;
  if (tot <= 4.0 * n) {
    for (long t = 0; t < (long)tot; t++) {
      long q = t;
      for (int i = 0; i < 2 * N; i++) { int v = q %% vals; q /= vals; a[i] = mkv(1, 0, v >> FB, v & ((1 << FB) - 1)); }
      recd(d, a);
    }
    return;
  }
  for (long i = 0; i < n; i++) {
    for (int k = 0; k < 2 * N; k++) a[k] = mkv(1, 0, exp_pattern(r, E), frac_pattern(r, FB));
    int base;                                    // exponent sum of the largest product
    switch (r.below(6)) {
    case 0: base = bias - 3 + (int)r.below(6); break;                // underflow
    case 1: base = top + bias - 3 + (int)r.below(6); break;          // overflow
    default: base = bias + (int)r.below(top + 1); }
    int kind = r.below(8);
    if (kind == 0) {}                                                // exponents as drawn
    else if (kind <= 3 && FB >= 1) {
      // a chain that ends just beside a boundary: the largest product has ones at
      // the bottom, the others fill the rest
      if (r.below(4)) base = bias + 2 * FB + 1 + 2 * FB * (N - 1) + (int)r.below(4);
      int z = r.below(N);                       // which product is the largest
      V *p = a + 2 * z;
      u128 f = r.bits(FB) | 1; 
      u128 x = ((u128)1 << FB) | f;
      p[0].f = f; p[1].f = (0 - inv_mod(x, FB)) & mask128(FB);
      if (FB == 0) p[0].f = p[1].f = 0;
      set_exp(r, p, base, top);
      int s = 2 * FB + 1 + (int)r.below(2), got = 0;
      if (r.coin()) s = FB + (int)r.below(FB + 3);
      for (int k = 1; k < N; k++) {
        V *q = a + 2 * ((z + k) %% N);
        if (r.below(5)) { q[0].f = 1; q[1].f = mask128(FB) - (FB > 0 ? 1 : 0); }    // the longest run of ones
        if (r.below(3) == 0) { q[0].f = frac_pattern(r, FB); }
        if (r.below(3) == 0) { q[1].f = frac_pattern(r, FB); }
        set_exp(r, q, base - s - got, top);
        got += 2 * FB + (int)r.below(5) - 2; if (r.below(4) == 0) got -= (int)r.below(2 * FB + 2);
        if (got < 0) got = 0;
      }
    } else {
      int z = r.below(N);
      for (int k = 0; k < N; k++) {
        int s = 0;
        switch (r.below(6)) { case 0: s = 0; break; case 1: s = 1; break; case 2: s = FB + (int)r.below(3); break;
          case 3: s = 2 * FB + (int)r.below(5); break; case 4: s = r.below(6 * FB + 8); break; default: s = r.below(2 * FB + 4); }
        set_exp(r, a + 2 * k, k == z ? base : base - s, top);
      }
    }
    if (r.below(10) == 0) {                     // equal products
      a[2] = a[0]; a[3] = a[1];
    }
    recd(d, a);
  }
}
// Small fractions: all products and shifts whose sum comes close to a boundary.
static void near_dot4(const Dot &d, uint64_t seed, long limit) {
  int FB = d.f, E = d.e, top = (1 << E) - 1;
  Rng r(seed * 7919 + FB * 31 + E);
  struct P { int p; u128 x, y; };
  std::vector<P> ps;
  std::set<int> have;
  for (int x = 1 << FB; x < 2 << FB; x++) for (int y = x; y < 2 << FB; y++)
    if (have.insert(x * y).second) { P p = {x * y, (u128)(x - (1 << FB)), (u128)(y - (1 << FB))}; ps.push_back(p); }
  int M = ps.size(), SM = 6 * FB + 4, EXT = 6 * FB + 12;
  double tot = (double)M * M * M * M * SM * SM * SM / 6;
  long found = 0, tries = 0;
  for (int s1 = 0; s1 <= 2 * FB + 3; s1++) for (int s2 = s1; s2 <= SM; s2++) for (int s3 = s2; s3 <= SM; s3++)
   for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) for (int k = 0; k < M; k++) {
    if (s3 < 3 * FB) continue;
    if (tot > 3e7 && r.below((uint32_t)(tot / 3e7) + 1)) continue;
    u128 part = ((u128)ps[i].p << EXT) + (((u128)ps[j].p << EXT) >> s1) + (((u128)ps[k].p << EXT) >> s2);
    int n = 0; for (u128 t = part; t; t >>= 1) n++;
    u128 step = (u128)1 << (n - FB - 1);
    u128 rem = step - (part & (step - 1));                // what is missing to the next value
    for (int l = 0; l < M; l++) {
      u128 last = ((u128)ps[l].p << EXT) >> s3;
      u128 lo = last > rem ? last - rem : rem - last;
      if (lo > ((u128)1 << (EXT - s3 + 1))) continue;     // within a unit or so of the boundary
      found++;
      if (r.below((uint32_t)(found / limit) + 1)) continue;
      V a[8]; int ord[4] = {i, j, k, l}, sh[4] = {0, s1, s2, s3}, rot = r.below(4), base = SM + (int)r.below(2 * top - SM > 0 ? 2 * top - SM : 1);
      for (int q = 0; q < 4; q++) { V *p = a + 2 * ((q + rot) %% 4);
        p[0] = mkv(1, 0, 0, ps[ord[q]].x); p[1] = mkv(1, 0, 0, ps[ord[q]].y); set_exp(r, p, base - sh[q], top); }
      recd(d, a);
    }
  }
  (void)tries;
}
#if %(N)d == 4
template<int E,int FB> struct D {
  static V dot(const V *a) { return from_fp(thls::dot4_pos_rndd<E,FB>(to_fp<E,FB>(a[0]), to_fp<E,FB>(a[2]), to_fp<E,FB>(a[4]), to_fp<E,FB>(a[6]),
    to_fp<E,FB>(a[1]), to_fp<E,FB>(a[3]), to_fp<E,FB>(a[5]), to_fp<E,FB>(a[7]))); }
  static void go(uint64_t seed, long n) { Dot d = {"dot4_pos_rndd", 4, E, FB, dot}; go_dot(d, seed, n); }
  static void near(uint64_t seed, long n) { Dot d = {"dot4_pos_rndd", 4, E, FB, dot};
    out.group(std::string("\\"op\\":\\"dot\\",\\"v\\":\\"dot4_pos_rndd\\",\\"fx\\":") + fmtj(E, FB) + ",\\"fr\\":" + fmtj(E, FB) + ",\\"f\\":[]");
    near_dot4(d, seed, n); }
};
#else
template<int E,int FB> struct D {
  static V dot(const V *a) { return from_fp(thls::dot2_pos_rndd<E,FB>(to_fp<E,FB>(a[0]), to_fp<E,FB>(a[2]), to_fp<E,FB>(a[1]), to_fp<E,FB>(a[3]))); }
  static void go(uint64_t seed, long n) { Dot d = {"dot2_pos_rndd", 2, E, FB, dot}; go_dot(d, seed, n); }
};
#endif
"""


def plan(seed, tier):
    r = rng(seed, "C13")
    quick = tier == "quick"
    n = 6000 if quick else 40000
    shards = []
    two = [(2, 1), (1, 2), (2, 2), (3, 1), (3, 3), (5, 10), (8, 23), (8, 7), (11, 52), (1, 3), (4, 4), (8, 30), (8, 31), (6, 61), (12, 15)]
    while len(two) < (28 if quick else 160):
        two.append((r.randint(1, 14), r.randint(1, 61)))
    four = [(1, 1), (2, 1), (4, 1), (5, 2), (5, 3), (4, 3), (5, 4), (6, 5), (8, 7), (6, 16), (8, 20), (8, 19), (5, 10), (1, 3), (7, 9), (9, 13), (11, 18)]
    while len(four) < (26 if quick else 120):
        four.append((r.randint(1, 11), r.randint(1, 20)))
    for name, c, N in (("dot2", two, 2), ("dot4", four, 4)):
        lines = ["    D<%d,%d>::go(seed, %d);\n" % (e, f, n) for e, f in c]
        for k, part in enumerate(split(lines, 5 if quick else 30)):
            shards.append(Shard("%s_%02d" % (name, k), program(["gens.hpp"], DECL % {"N": N}, "".join(part))))
        # with diagnostics
        d = (DECL % {"N": N}).replace("dot%d_pos_rndd<E,FB>(" % N, "dot%d_pos_rndd<E,FB,true>((dbg(), " % N).replace("(dbg(), to_fp<E,FB>(a[0])", "(dbg(), to_fp<E,FB>(a[0]))")
        shards.append(Shard("%s_debug" % name, program(["gens.hpp"], d, "".join("    D<%d,%d>::go(seed, %d);\n" % (e, f, 500 if quick else 5000) for e, f in c[2:12]))))
    for e, f in ((5, 1), (5, 2), (6, 3)):
        shards.append(Shard("near4_%d" % f, program(["gens.hpp"], DECL % {"N": 4}, "    D<%d,%d>::near(seed, %d);\n" % (e, f, 4000 if quick else 60000))))
    return shards, []
