"""C03: division, both dividers and the primitive."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program, sweep, wide

H = {"div_v1": ("thls/tops/fp_flopoco_div_v1.hpp", "thls::div_v1<E,F>(a, b, 0)"),
     "div_v2": ("thls/tops/fp_flopoco_div_v2.hpp", "thls::div_v2<E,F>(a, b, 0)"),
     "div": ("thls/tops/fp_flopoco_primitives.hpp", "thls::div<E,F>(a, b)"),
     "ref_div": ("thls/tops/fp_flopoco.hpp", "(thls::ref_div<E,F>(a, b))")}
DECL = """
template<int EX,int FX,int EY,int FY> struct D {
  static const int E = EX > EY ? EX : EY, F = FX > FY ? FX : FY;
  static V op(const V &x, const V &y) {
    thls::fp_flopoco<EX,FX> a = to_fp<EX,FX>(x);
    thls::fp_flopoco<EY,FY> b = to_fp<EY,FY>(y);
    return from_fp(%s);
  }
  static void go(uint64_t seed, long n) {
    Bin b = {"div", "%s", EX, FX, EY, FY, E, F, op};
    run_bin(b, seed, n, gen_div);
  }
};
"""


def combos(seed, tier, v):
    r = rng(seed, "C03" + v)
    c = [(5, 10, 5, 10), (8, 23, 8, 23), (11, 52, 11, 52), (3, 1, 3, 1), (3, 2, 3, 2), (4, 2, 4, 2), (4, 3, 4, 3),
         (3, 4, 3, 4), (4, 2, 3, 3), (3, 3, 4, 2), (2, 3, 2, 3), (2, 2, 2, 2), (3, 5, 3, 5),
         (8, 23, 5, 10), (5, 10, 8, 23), (6, 9, 6, 8), (6, 8, 6, 9), (8, 5, 8, 5), (8, 6, 8, 6), (8, 7, 8, 7),
         (8, 8, 8, 8), (9, 31, 9, 31), (9, 32, 9, 32), (10, 40, 10, 40), (12, 60, 12, 60)]
    n = 40 if tier == "quick" else 220
    while len(c) < n:
        ex = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
        fx = r.randint(1, 60)
        if r.random() < 0.6:
            ey, fy = ex, fx
        else:
            ey, fy = r.choice([ex, r.randint(3, 12)]), r.choice([fx, r.randint(1, 60), fx + 1, max(1, fx - 1)])
        c.append((ex, fx, ey, fy))
    return [t for t in c if max(t[0], t[2]) + max(t[1], t[3]) + 3 <= 120]


def plan(seed, tier):
    n = 4000 if tier == "quick" else 16000
    shards = []
    for v, (h, expr) in H.items():
        cs = combos(seed, tier, v)
        if v in ("div", "ref_div"):
            cs = cs[:3] + cs[6:9] + cs[13:15] + cs[25:25 + len(cs) // 12]
        for k, part in enumerate(split(cs, (8 if tier == "quick" else 40) if len(cs) > 12 else 2)):
            body = "".join("    D<%d,%d,%d,%d>::go(seed, %d);\n" % (*c, n) for c in part)
            shards.append(Shard("%s_%02d" % (v, k), program(["gens.hpp", h], DECL % (expr, v), body)))
    # every fraction width, with few cases each
    for v in ("div_v1", "div_v2"):
        h, expr = H[v]
        for k, part in enumerate(split(sweep(seed, "C03" + v, 1, 60, 2, 14), 4)):
            body = "".join("    D<%d,%d,%d,%d>::go(seed, %d);\n" % (e, f, e, f, 500 if tier == "quick" else 4000) for e, f in part)
            shards.append(Shard("%s_sweep%02d" % (v, k), program(["gens.hpp", h], DECL % (expr, v), body)))
    # fractions beyond 64 bits, up to the widest word
    for v in ("div_v1", "div_v2", "div", "ref_div"):
        h, expr = H[v]
        body = "".join("    D<%d,%d,%d,%d>::go(seed, %d);\n" % (e, f, e, f, 500 if tier == "quick" else 4000) for e, f in wide(seed, "C03" + v, (6 if v[:5] == "div_v" else 2) if tier == "quick" else 30))
        shards.append(Shard("%s_wide" % v, program(["gens.hpp", h], DECL % (expr, v), body)))
    # with diagnostics
    for v in ("div_v1", "div_v2", "div"):
        h, expr = H[v]
        body = "".join("    D<%d,%d,%d,%d>::go(seed, %d);\n" % (*c, 400 if tier == "quick" else 4000) for c in combos(seed, tier, v)[:4] + combos(seed, tier, v)[-2:])
        shards.append(Shard("%s_debug" % v, program(["gens.hpp", h], DECL % (expr.replace("(a, b, 0)", "(a, b, dbg())").replace("(a, b)", "(a, b, dbg())"), v), body)))
    quick_tier = tier == "quick"
    return shards, [] if quick_tier else [Model("laws", "FPLaws", "FPLawsRounding", env={"BIG": "1"}, timeout=3000, workers=4, min_states=100000, heap="4g")]
