"""C02: multiplication."""
import re
from vf.core import Shard, Model
from vf.fmts import rng, split, program, sweep, wide

DECL = """
template<int E,int FX,int FY,int FR> struct M {
  static V mul1(const V &x, const V &y) { return from_fp(thls::mul_v1<E,FR>(to_fp<E,FX>(x), to_fp<E,FY>(y), 0)); }
  static V mul(const V &x, const V &y) { return from_fp(thls::mul<E,FR>(to_fp<E,FX>(x), to_fp<E,FY>(y))); }
  static V sqr(const V &x, const V &) { return from_fp(thls::square<E,FR>(to_fp<E,FX>(x), 0)); }
  static void go(uint64_t seed, long n, bool prim) {
    Bin b = {"mul", prim ? "mul" : "mul_v1", E, FX, E, FY, E, FR, prim ? mul : mul1};
    run_bin(b, seed, n, gen_mul);
    if (prim && FX == FY) { Bin q = {"sqr", "square", E, FX, E, FX, E, FR, sqr}; run_bin(q, seed, n / 4, gen_mul); }
  }
};
"""

NOSQR = re.sub(r"    if \(prim && .*\n|  static V sqr.*\n", "", DECL)


def combos(seed, tier):
    r = rng(seed, "C02")
    c = [(5, 10, 10, 10), (8, 23, 23, 23), (11, 52, 52, 52), (3, 1, 1, 1), (3, 2, 2, 2), (3, 3, 2, 2), (4, 2, 3, 1),
         (2, 2, 2, 2), (3, 2, 2, 5), (3, 2, 2, 6), (3, 2, 2, 4), (2, 1, 3, 5), (3, 2, 1, 7),
         (6, 8, 8, 17), (6, 8, 8, 18), (6, 8, 8, 19), (6, 8, 8, 16), (7, 16, 12, 30), (8, 23, 23, 48), (8, 23, 23, 47),
         (8, 23, 23, 46), (9, 31, 31, 31), (9, 32, 31, 30), (9, 30, 30, 64), (10, 40, 23, 33), (11, 52, 52, 64),
         (11, 63, 63, 63), (12, 60, 62, 61), (15, 45, 45, 45), (4, 6, 30, 12), (8, 7, 7, 7), (6, 9, 9, 9)]
    n = 46 if tier == "quick" else 420
    while len(c) < n:
        e = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14])
        fx = r.randint(1, 63)
        fy = r.choice([fx, fx, r.randint(1, 63), min(63, max(1, fx + r.randint(-2, 2)))])
        if fx + fy + 2 > 128:
            continue
        fr = r.choice([fx, max(fx, fy), min(fx, fy), r.randint(1, 63), max(1, fx + fy + r.randint(-2, 4))])
        if e + fr + 3 > 120:
            continue
        c.append((e, fx, fy, fr))
    return c


def plan(seed, tier):
    cs = combos(seed, tier)
    n = 9000 if tier == "quick" else 20000
    shards = []
    for k, part in enumerate(split(cs, 16 if tier == "quick" else 80)):
        body = "".join("    M<%d,%d,%d,%d>::go(seed, %d, %s);\n" % (*c, n, "true" if (i + k) % 3 == 0 else "false")
                       for i, c in enumerate(part))
        shards.append(Shard("mul%02d" % k, program(
            ["gens.hpp", "thls/tops/fp_flopoco_primitives.hpp"], DECL, body)))
    # every fraction width of operands and of results, with few cases each
    fm = [(e, f, f, f) for e, f in sweep(seed, "C02", 1, 63, 2, 14)]
    fm += [(e, min(f, 63), max(1, min(60, 64 - f)), fr) for (e, f), (_, fr) in zip(sweep(seed, "C02m", 1, 63, 2, 14), reversed(sweep(seed, "C02r", 1, 63, 2, 14)))]
    # words beyond 64 bits
    lop = []
    for e, f in wide(seed, "C02", 8 if tier == "quick" else 60):
        fm.append((e, min(63, f // 2), min(63, f - f // 2), f))
        if f < 126:
            lop += [(e, f, (f * 7) % (126 - f) + 1, f), (e, (f * 11) % (126 - f) + 1, f, f // 2)]
    body = "".join("    M<%d,%d,%d,%d>::go(seed, %d, %s);\n" % (*c, 600 if tier == "quick" else 5000, "true" if i % 2 else "false") for i, c in enumerate(lop))
    shards.append(Shard("mul_wide", program(["gens.hpp", "thls/tops/fp_flopoco_primitives.hpp"], NOSQR, body)))
    for k, part in enumerate(split(fm, 6)):
        body = "".join("    M<%d,%d,%d,%d>::go(seed, %d, %s);\n" % (*c, 600 if tier == "quick" else 5000, "true" if i % 2 else "false") for i, c in enumerate(part))
        shards.append(Shard("mul_sweep%02d" % k, program(["gens.hpp", "thls/tops/fp_flopoco_primitives.hpp"], DECL, body)))
    # with diagnostics
    d = DECL.replace(", 0))", ", dbg()))").replace("to_fp<E,FY>(y))", "to_fp<E,FY>(y), dbg())")
    body = "".join("    M<%d,%d,%d,%d>::go(seed, %d, %s);\n" % (*c, 500 if tier == "quick" else 4000, "true" if i % 2 else "false") for i, c in enumerate(cs[:6] + cs[10:12] + cs[-6:]))
    shards.append(Shard("mul_debug", program(["gens.hpp", "thls/tops/fp_flopoco_primitives.hpp"], d, body)))
    quick_tier = tier == "quick"
    return shards, [Model("laws", "FPLaws", "FPLawsRounding", env={} if quick_tier else {"BIG": "1"}, timeout=3000, workers=2, min_states=15000)]
