"""C01: addition, all variants."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program, sweep

VARIANTS = {   # name: (header, expression)
    "add_dual": ("thls/tops/fp_flopoco_add_dual_v1.hpp", "thls::add_dual<E,F>(a, b)"),
    "add": ("thls/tops/fp_flopoco_primitives.hpp", "thls::add<E,F>(a, b)"),
    "add_fast": ("thls/tops/fp_flopoco_add_dual_v1.hpp", "thls::add_fast<E,F>(a, b)"),
    "add_single_v1": ("thls/tops/fp_flopoco_add_single_v1.hpp", "thls::add_single<E,F>(a, b)"),
    "add_single_v2": ("thls/tops/fp_flopoco_add_single_v2.hpp", "thls::add_single<E,F>(a, b)"),
    "add_single_v3": ("thls/tops/fp_flopoco_add_single_v3.hpp", "thls::add_single<E,F>(a, b)"),
    "add_single_v4": ("thls/tops/fp_flopoco_add_single_v4.hpp", "thls::add_single<E,F>(a, b)"),
    "add_small_v1": ("thls/tops/fp_flopoco_add_single_v1.hpp", "thls::add_small<E,F>(a, b)"),
    "add_small_v2": ("thls/tops/fp_flopoco_add_single_v2.hpp", "thls::add_small<E,F>(a, b)"),
    "add_small_v3": ("thls/tops/fp_flopoco_add_single_v3.hpp", "thls::add_small<E,F>(a, b)"),
    "add_small_v4": ("thls/tops/fp_flopoco_add_single_v4.hpp", "thls::add_small<E,F>(a, b)"),
    "add_single_v5": ("thls/tops/fp_flopoco_add_single_v5.hpp", "thls::add_single_v5<E,F>(a, b)"),
}
DEBUG = "add_dual", "add", "add_single_v1", "add_single_v2", "add_single_v3", "add_single_v4", "add_single_v5", "add_small_v1"
DECL = """
template<int EX,int FX,int EY,int FY> struct A {
  static const int E = EX > EY ? EX : EY, F = FX > FY ? FX : FY;
  static V op(const V &x, const V &y) {
    thls::fp_flopoco<EX,FX> a = to_fp<EX,FX>(x);
    thls::fp_flopoco<EY,FY> b = to_fp<EY,FY>(y);
    return from_fp(%s);
  }
  static void go(uint64_t seed, long n) {
    Bin b = {"add", "%s", EX, FX, EY, FY, E, F, op};
    run_bin(b, seed, n, gen_add);
  }
};
"""


def combos(seed, tier, v):
    r = rng(seed, "C01" + v)
    c = [(5, 10, 5, 10), (8, 23, 8, 23), (11, 52, 11, 52), (4, 2, 4, 2), (4, 1, 4, 3), (4, 3, 4, 1), (5, 2, 4, 2),
         (4, 2, 5, 2), (8, 5, 8, 5), (7, 13, 7, 13), (8, 29, 8, 29), (8, 12, 8, 23), (8, 23, 8, 12), (5, 10, 8, 23),
         (8, 23, 5, 10), (8, 10, 5, 23)]
    n = 26 if tier == "quick" else 160
    while len(c) < n:
        ex = r.choice([4, 5, 6, 7, 8, 9, 10, 11, 12])
        fx = r.randint(1, 52)
        if r.random() < 0.6:
            ey, fy = ex, fx
        else:
            ey = r.choice([ex, ex, max(4, ex - 1), ex + 1, r.randint(4, 12)])
            fy = r.choice([fx, r.randint(1, 52), fx + 1, max(1, fx - 1)])
        c.append((ex, fx, ey, fy))
    # exponents narrow and wide for their fractions, and fractions of 2^k - 3 bits
    small = (3, 1, 3, 1), (3, 2, 3, 2), (4, 5, 4, 5), (5, 13, 5, 13), (5, 35, 5, 35), (4, 13, 4, 13), (6, 29, 6, 29), \
        (6, 61, 6, 61), (5, 20, 5, 20), (4, 31, 4, 31), (4, 40, 4, 40), (4, 53, 4, 53), (5, 60, 5, 60), (3, 12, 3, 12), (3, 28, 3, 28), (3, 40, 3, 40), (10, 1, 10, 1), (10, 61, 10, 61)
    c = c[:8] + list(small) + c[8:]
    ok = []
    for t in c:
        e, f = max(t[0], t[2]), max(t[1], t[3])
        if e + f + 3 > 120 or 2 * f + 4 > 126:
            continue                      # beyond the widest word
        if v.endswith("_v3") and (f + 5).bit_length() != 5:
            continue                      # v3 is for a normaliser of 17 to 31 bits
        if e <= 3 and v in ("add_dual", "add_fast", "add"):
            continue
        ok.append(t)
    return ok


def plan(seed, tier):
    n = 3500 if tier == "quick" else 16000
    per = 2 if tier == "quick" else 12
    shards = []
    for v, (h, expr) in VARIANTS.items():
        cs = combos(seed, tier, v)
        if v in ("add_fast", "add") or v.startswith("add_small"):
            cs = cs[:2] + cs[12:15] + cs[18:18 + len(cs) // 8]
        for k, part in enumerate(split(cs, per if len(cs) > 12 else 1)):
            body = "".join("    A<%d,%d,%d,%d>::go(seed, %d);\n" % (*c, n) for c in part)
            shards.append(Shard("%s_%02d" % (v, k), program(["gens.hpp", h], DECL % (expr, v), body)))
    # every fraction width, with few cases each
    for v in ("add_dual", "add_single_v1", "add_single_v5"):
        h, expr = VARIANTS[v]
        fm = [t for t in sweep(seed, "C01" + v, 1, 61, 4, 12)]
        for k, part in enumerate(split(fm, 4)):
            body = "".join("    A<%d,%d,%d,%d>::go(seed, %d);\n" % (e, f, e, f, 500 if tier == "quick" else 4000) for e, f in part)
            shards.append(Shard("%s_sweep%02d" % (v, k), program(["gens.hpp", h], DECL % (expr, v), body)))
    # with diagnostics
    for v in DEBUG:
        h, expr = VARIANTS[v]
        body = "".join("    A<%d,%d,%d,%d>::go(seed, %d);\n" % (*c, 300 if tier == "quick" else 4000) for c in combos(seed, tier, v)[:3])
        shards.append(Shard("%s_debug" % v, program(["gens.hpp", h], DECL % (expr.replace("(a, b)", "(a, b, dbg())"), v), body)))
    quick_tier = tier == "quick"
    return shards, [Model("laws", "FPLaws", "FPLawsAlgebra", env={} if quick_tier else {"BIG": "1"}, timeout=3000, workers=2, min_states=15000)]
