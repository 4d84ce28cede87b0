"""C05: conversion, promotion, negation."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program, sweep, wide

DECL = """
#include "thls/tops/fp_flopoco_primitives.hpp"
template<int EX,int FX,int ER,int FR> struct C {
  typedef thls::fp_flopoco<EX,FX> X; typedef thls::fp_flopoco<ER,FR> R;
  static V conv(const V &x) { return from_fp(thls::convert<ER,FR>(to_fp<EX,FX>(x))); }
  static V convd(const V &x) { R r; thls::convert(r, to_fp<EX,FX>(x)); return from_fp(r); }
  static V fconv(const V &x) { R r; thls::flopoco_convert(r, to_fp<EX,FX>(x)); return from_fp(r); }
  static V ref(const V &x) { return from_fp((thls::ref_convert<ER,FR>(to_fp<EX,FX>(x)))); }
  static V refd(const V &x) { R r; thls::ref_convert(r, to_fp<EX,FX>(x)); return from_fp(r); }
  static V negv(const V &x) { return from_fp(thls::neg_v1<ER,FR>(to_fp<EX,FX>(x))); }
  static V neg(const V &x) { return from_fp(thls::neg<ER,FR>(to_fp<EX,FX>(x))); }
  static V refneg(const V &x) { return from_fp((thls::ref_neg<ER,FR>(to_fp<EX,FX>(x)))); }
  static V prom(const V &x) { R r; thls::promote(r, to_fp<EX,FX>(x)); return from_fp(r); }
  static V back(const V &x) { return from_fp(thls::convert<EX,FX>(thls::convert<ER,FR>(to_fp<EX,FX>(x)))); }
};
template<int EX,int FX,int ER,int FR> void rec(const char *op, const char *v, fn1 f, uint64_t seed, long n) {
  Un u = {op, v, EX, FX, ER, FR, f};
  run_un(u, seed, n);
}
"""


def combos(seed, tier):
    r = rng(seed, "C05")
    c = [(8, 23, 5, 10), (5, 10, 8, 23), (8, 23, 11, 52), (11, 52, 8, 23), (8, 23, 8, 10), (8, 10, 8, 23), (8, 23, 8, 23),
         (5, 6, 4, 3), (4, 3, 5, 6), (5, 6, 5, 3), (5, 6, 5, 5), (5, 6, 5, 4), (5, 6, 3, 6), (4, 6, 3, 5), (3, 3, 6, 2),
         (3, 6, 6, 2), (6, 2, 2, 2), (6, 5, 2, 1), (2, 4, 3, 3), (3, 4, 2, 3), (6, 3, 5, 8), (8, 4, 7, 4), (4, 8, 3, 7),
         (8, 53, 8, 1), (12, 60, 3, 60), (3, 60, 12, 60), (15, 63, 15, 62), (4, 33, 4, 32), (9, 31, 9, 30), (2, 1, 12, 5)]
    n = 60 if tier == "quick" else 600
    while len(c) < n:
        ex, fx = r.randint(2, 14), r.randint(1, 64)
        er = r.choice([ex, r.randint(2, 14), ex + 1, max(2, ex - 1)])
        fr = r.choice([fx, r.randint(1, 64), fx + 1, max(1, fx - 1), max(1, fx - 2)])
        c.append((ex, fx, er, fr))
    return c


def plan(seed, tier):
    n = 2500 if tier == "quick" else 6000
    lines = []
    for k, c in enumerate(combos(seed, tier)):
        t = "%d,%d,%d,%d" % c
        def rec(op, v, fn, m):
            lines.append('    rec<%s>("%s", "%s", C<%s>::%s, seed, %d);\n' % (t, op, v, t, fn, m))
        rec("conv", "convert", "conv", n)
        rec("neg", "neg_v1" if k % 2 else "neg", "negv" if k % 2 else "neg", n // 2)
        if k % 5 == 0:
            rec("conv", "convert_dst", "convd", n // 2)
            rec("conv", "flopoco_convert", "fconv", n // 4)
            rec("conv", "ref_convert", "ref", n // 4)
            rec("neg", "ref_neg", "refneg", n // 4)
        if k % 5 == 1:
            rec("conv", "ref_convert_dst", "refd", n // 4)
        if c[2] >= c[0] and c[3] >= c[1]:
            rec("conv", "promote", "prom", n)
            lines.append('    rec<%d,%d,%d,%d>("conv", "back", C<%s>::back, seed, %d);\n' % (c[0], c[1], c[0], c[1], t, n // 2))
    # every fraction width as source, as target, and every distance between the two
    m = 400 if tier == "quick" else 4000
    for (e, f), (g, d) in zip(sweep(seed, "C05", 1, 64, 2, 14), sweep(seed, "C05d", 1, 64, 2, 14)):
        for t in ((e, f, g, max(1, (f * 37) % 65)), (e, 64, g, 65 - d) if d > 1 else (e, 64, g, 64)):
            lines.append('    rec<%d,%d,%d,%d>("conv", "convert", C<%d,%d,%d,%d>::conv, seed, %d);\n' % (*t, *t, m))
    # words beyond 64 bits
    for (e, f), (g, h) in zip(wide(seed, "C05", 6 if tier == "quick" else 60), wide(seed, "C05b", 6 if tier == "quick" else 60)):
        for t in ((e, f, g, h), (e, f, g, h % 64 + 1), (e, f % 64 + 1, g, h), (e, f, e, f - 1)):
            lines.append('    rec<%d,%d,%d,%d>("conv", "convert", C<%d,%d,%d,%d>::conv, seed, %d);\n' % (*t, *t, m))
        lines.append('    rec<%d,%d,%d,%d>("neg", "neg", C<%d,%d,%d,%d>::neg, seed, %d);\n' % (e, f, e, f, e, f, e, f, m))
        if e <= g:
            lines.append('    rec<%d,%d,%d,%d>("conv", "promote", C<%d,%d,%d,%d>::prom, seed, %d);\n' % ((e, f % 64 + 1, g, h) * 2 + (m,)))
    shards = []
    for k, part in enumerate(split(lines, 12 if tier == "quick" else 40)):
        shards.append(Shard("conv%02d" % k, program(["gens.hpp"], DECL, "".join(part))))
    quick_tier = tier == "quick"
    return shards, [Model("laws", "FPLaws", "FPLawsOrder", env={} if quick_tier else {"BIG": "1"}, timeout=3000, workers=1, min_states=15000)]
