"""C07: the six comparisons."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program, sweep, wide

DECL = """
#include "thls/tops/fp_flopoco_ordering.hpp"
template<int EX,int FX,int EY,int FY> struct O {
  typedef thls::fp_flopoco<EX,FX> X; typedef thls::fp_flopoco<EY,FY> Y;
  static void rels(const V &x, const V &y, int *q) {
    X a = to_fp<EX,FX>(x); Y b = to_fp<EY,FY>(y);
    int t[6] = {thls::less_than(a,b).to_int(), thls::less_than_equal(a,b).to_int(), thls::equal(a,b).to_int(),
      thls::not_equal(a,b).to_int(), thls::greater_than_equal(a,b).to_int(), thls::greater_than(a,b).to_int()};
    for (int i = 0; i < 6; i++) q[i] = t[i];
  }
  static void one(const V &x, const V &y) {
    int q[6] = {9,9,9,9,9,9};
    guarded([&]() { rels(x, y, q); });
    out.begin_case(); out.val(x); out.sep(); out.val(y); out.line += ",[";
    for (int i = 0; i < 6; i++) { if (i) out.sep(); out.num(q[i]); }
    out.line += ']'; out.end_case();
  }
  static void go(uint64_t seed, long n) {
    std::string h = std::string("\\"op\\":\\"cmp\\",\\"v\\":\\"ordering\\",\\"fx\\":") + fmtj(EX,FX) + ",\\"fy\\":" + fmtj(EY,FY);
    Rng r(hash_str(h.c_str()) ^ (seed * 77777ull));
    out.group(h);
    std::vector<V> xs, ys;
    bool small = EX + FX <= 7 && EY + FY <= 7 && EX + FX + EY + FY <= 12;
    if (small) { xs = all_values(r, EX, FX); ys = all_values(r, EY, FY); }
    else {
      xs = specials(r, EX, FX); ys = specials(r, EY, FY);
      std::vector<V> l = landmarks(r, EX, FX); xs.insert(xs.end(), l.begin(), l.end());
      l = landmarks(r, EY, FY); ys.insert(ys.end(), l.begin(), l.end());
    }
    for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j < ys.size(); j++) one(xs[i], ys[j]);
    if (small) return;
    int d = (1 << (EY - 1)) - (1 << (EX - 1));      // y's exponent field minus x's for the same exponent
    for (long i = 0; i < n; i++) {
      V x = mkv(1, r.coin(), exp_pattern(r, EX), frac_pattern(r, FX));
      if (r.below(30) == 0) x = any_value(r, EX, FX);
      V y = x;
      y.e = clampe(x.e + d, EY);
      y.f = FY >= FX ? x.f << (FY - FX) : x.f >> (FX - FY);
      switch (r.below(9)) {
      case 0: break;                                             // the same, or the nearest below
      case 1: y.s ^= 1; break;
      case 2: y.f = (y.f + 1) & mask128(FY); break;
      case 3: y.f = (y.f - 1) & mask128(FY); break;
      case 4: y.e = clampe(y.e + 1 - 2 * (int)r.coin(), EY); break;
      case 5: y.f ^= (u128)1 << r.below(FY); break;
      case 6: y.f = frac_pattern(r, FY); break;
      case 7: y = any_value(r, EY, FY); break;
      default: y.e = clampe(y.e ^ (1 << r.below(EY)), EY);
      }
      one(x, y);
    }
  }
};
"""


def plan(seed, tier):
    r = rng(seed, "C07")
    quick = tier == "quick"
    n = 3000 if quick else 20000
    c = [(3, 2, 3, 2), (2, 3, 3, 3), (3, 3, 2, 3), (2, 4, 4, 2), (4, 2, 2, 4), (2, 1, 2, 1), (3, 1, 2, 2), (2, 2, 4, 1), (3, 3, 3, 3),
         (4, 1, 3, 4), (2, 4, 2, 2), (5, 1, 5, 1), (2, 5, 2, 5), (6, 1, 2, 3),
         (8, 23, 8, 23), (8, 23, 11, 52), (11, 52, 8, 23), (11, 52, 11, 52), (5, 10, 8, 7), (8, 7, 5, 10), (8, 10, 8, 23),
         (8, 30, 8, 31), (8, 31, 8, 32), (8, 22, 8, 21), (9, 53, 9, 54), (8, 54, 8, 53), (12, 60, 3, 64), (15, 63, 15, 63), (3, 60, 14, 20)]
    while len(c) < (64 if quick else 400):
        ex, fx = r.randint(2, 14), r.randint(1, 64)
        c.append((ex, fx, r.choice([ex, ex + 1, max(2, ex - 1), r.randint(2, 14)]), r.choice([fx, fx + 1, max(1, fx - 1), r.randint(1, 64)])))
    s = [(e, f, g, h) for (e, f), (g, h) in zip(sweep(seed, "C07", 1, 64, 2, 14), reversed(sweep(seed, "C07b", 1, 64, 2, 14)))]
    s += [(e, f, e, f) for e, f in sweep(seed, "C07c", 1, 64, 2, 14)]
    for (e, f), (g, h) in zip(wide(seed, "C07", 6 if quick else 60), wide(seed, "C07b", 6 if quick else 60)):
        s += [t for t in ((e, f, g, h), (e, f, e, f), (e, f, g, h % 64 + 1), (e, f % 64 + 1, g, h)) if max(t[0], t[2]) + max(t[1], t[3]) + 3 <= 128]
    few = ["    O<%d,%d,%d,%d>::go(seed, %d);\n" % (*t, 200 if quick else 2000) for t in s]
    lines = few + ["    O<%d,%d,%d,%d>::go(seed, %d);\n" % (*t, n) for t in c]
    shards = []
    for k, part in enumerate(split(lines, 8 if quick else 40)):
        shards.append(Shard("ord%02d" % k, program(["gens.hpp"], DECL, "".join(part))))
    quick_tier = tier == "quick"
    return shards, [Model("laws", "FPLaws", "FPLawsOrder", env={} if quick_tier else {"BIG": "1"}, timeout=3000, workers=1, min_states=15000)]
