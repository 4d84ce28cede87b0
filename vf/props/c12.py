"""C12: fused multiply-add."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program

DECL = """
#include "thls/tops/fp_flopoco_primitives.hpp"
#include "thls/tops/fp_flopoco_fma.hpp"
template<int ER,int FR,int EX,int FX,int EY,int FY,int EZ,int FZ> struct K {
  static V fma(const V &x, const V &y, const V &z) { return from_fp((thls::fma<ER,FR>(to_fp<EX,FX>(x), to_fp<EY,FY>(y), to_fp<EZ,FZ>(z)))); }
  static V flo(const V &x, const V &y, const V &z) { return from_fp((thls::flopoco_fma<ER,FR>(to_fp<EX,FX>(x), to_fp<EY,FY>(y), to_fp<EZ,FZ>(z)))); }
  static void go(uint64_t seed, long n, int v) {
    if (v & 1) { Tri t = {"fma", "fma", EX,FX,EY,FY,EZ,FZ,ER,FR, fma}; fma_run(t, seed, n); }
    if (v & 2) { Tri t = {"fma", "flopoco_fma", EX,FX,EY,FY,EZ,FZ,ER,FR, flo}; fma_run(t, seed, n / 4); }
  }
};
"""


def accepted(ex, fx, ey, fy, ez, fz, er, fr):
    fm = max(fx + fy + 2, fz)
    return fx + fy <= 124 and 2 * fm + 8 <= 128


def plan(seed, tier):
    r = rng(seed, "C12")
    quick = tier == "quick"
    n = 8000 if quick else 25000
    c = [(2, 2, 2, 2, 2, 2, 2, 2), (3, 2, 3, 2, 3, 2, 3, 2), (2, 1, 3, 2, 2, 3, 3, 3), (3, 2, 2, 2, 3, 1, 2, 3),
         (8, 23, 8, 23, 8, 23, 8, 23), (5, 10, 5, 10, 5, 10, 5, 10), (8, 7, 8, 7, 8, 23, 8, 23), (5, 10, 5, 10, 8, 23, 8, 23),
         (8, 23, 8, 23, 8, 23, 11, 52), (4, 3, 5, 4, 6, 5, 4, 6), (11, 26, 11, 26, 11, 52, 11, 52), (8, 10, 8, 12, 6, 30, 8, 14)]
    # the addend's exponent range wider than the product's intermediate, and the result wider still
    c += [(3, 4, 3, 5, 6, 8, 8, 8), (2, 3, 2, 3, 4, 6, 6, 9), (4, 10, 2, 7, 6, 9, 7, 12), (2, 5, 3, 5, 5, 5, 11, 20)]
    # operands of very different precision, and wide addends and results
    while len(c) < (26 if quick else 80):
        k = r.randrange(4)
        fx = r.randint(30, 54) if k == 0 else r.randint(1, 27)
        fy, fz, fr = r.randint(1, max(1, 56 - fx)), r.randint(28, 60) if k in (1, 3) else r.randint(1, 60), r.randint(28, 100) if k in (2, 3) else r.randint(1, 60)
        e = r.randint(3, 10)
        t = (e, fx, e, fy, e, fz, r.choice([e, e + 1, max(2, e - 1)]), fr)
        if accepted(*t):
            c.append(t)
    while len(c) < (58 if quick else 300):
        k = r.randrange(5)
        hi = 8 if k == 0 else 27
        fx, fy, fz, fr = (r.randint(1, hi) for _ in range(4))
        e = r.randint(2, 10)
        if k == 1:
            t = (e, fx, e, fx, e, fx, e, fx)
        elif k == 2:
            t = (e, fx, e, fy, e, fz, e, fr)
        elif k == 4:
            t = tuple(x for f in (fx, fy, fz, fr) for x in (r.randint(2, 11), f))
        else:
            t = tuple(x for f in (fx, fy, fz, fr) for x in (max(2, min(11, e + r.randint(-2, 2))), f))
        if accepted(*t):
            c.append(t)
    lines = []
    for i, t in enumerate(c):
        ex, fx, ey, fy, ez, fz, er, fr = t
        lines.append("    K<%d,%d,%d,%d,%d,%d,%d,%d>::go(seed, %d, %d);\n" % (er, fr, ex, fx, ey, fy, ez, fz, n, 3 if i % 6 == 0 else 1))
    shards = []
    for k, part in enumerate(split(lines, 12 if quick else 60)):
        shards.append(Shard("fma%02d" % k, program(["tri.hpp"], DECL, "".join(part))))
    # with diagnostics
    shards.append(Shard("fma_debug", program(["tri.hpp"], DECL.replace("to_fp<EZ,FZ>(z))", "to_fp<EZ,FZ>(z), dbg())"), "".join(
        "    K<%d,%d,%d,%d,%d,%d,%d,%d>::go(seed, %d, 3);\n" % (*t[6:], *t[:6], 500 if quick else 4000) for t in c[:6] + c[-4:]))))
    quick_tier = tier == "quick"
    return shards, [Model("laws", "FPLaws", "FPLawsAlgebra", env={} if quick_tier else {"BIG": "1"}, timeout=3000, workers=2, min_states=15000)]
