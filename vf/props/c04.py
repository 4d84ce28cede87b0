"""C04: reciprocals."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program, sweep, wide

DECL = """
template<int E,int F,int FR> struct R {
  static V inv1(const V &x) { return from_fp(thls::inv_v1<E,FR>(to_fp<E,F>(x), 0)); }
  static V inv(const V &x) { return from_fp(thls::inv<E,FR>(to_fp<E,F>(x))); }
  static V ref(const V &x) { return from_fp((thls::ref_inv<E,FR>(to_fp<E,F>(x)))); }
  static V direct(const V &x) { return from_fp(thls::inv_direct<E,FR>(to_fp<E,F>(x), 0)); }
  static V newton(const V &x) { return from_fp(thls::inv_table_newton<E,FR>(to_fp<E,F>(x), 0)); }
  static V faith(const V &x) { return from_fp(thls::inv_faithful<E,FR>(to_fp<E,F>(x))); }
};
template<int E,int F,int FR> void rec(const char *op, const char *v, fn1 f, uint64_t seed, long n) {
  Un u = {op, v, E, F, E, FR, f};
  run_un(u, seed, n);
}
"""


def plan(seed, tier):
    r = rng(seed, "C04")
    n = 3000 if tier == "quick" else 20000
    exact = [(5, 10), (8, 23), (11, 52), (3, 2), (3, 3), (4, 4), (4, 1), (4, 5), (4, 6), (5, 7), (4, 8), (6, 13), (7, 24), (9, 31),
             (10, 32), (10, 45), (12, 60)]
    more = [(r.randint(3, 11), r.randint(1, 60)) for _ in range(12 if tier == "quick" else 80)]
    lines = []
    for k, (e, f) in enumerate(exact + more):
        for v in (("inv1", "inv_v1"), ("inv", "inv"), ("ref", "ref_inv")):
            if v[0] == "inv1" or k % 6 == 0:
                lines.append("    rec<%d,%d,%d>(\"inv\", \"%s\", R<%d,%d,%d>::%s, seed, %d);\n"
                             % (e, f, f, v[1], e, f, f, v[0], n))
    faith = [(8, 23, 23), (5, 10, 10), (8, 20, 23), (8, 22, 23), (8, 23, 20), (8, 23, 27), (8, 8, 8), (8, 10, 10), (8, 6, 6), (8, 7, 7)]
    faith += [(8, f, f) for f in range(9, 29)] + [(11, 52, 52)]
    for _ in range(24 if tier == "quick" else 160):
        t = (r.randint(3, 12), r.randint(1, 44), r.randint(1, 44))
        if t[2] > 6 or t[1] <= 14:       # a direct table indexed by the whole fraction
            faith.append(t)
    for e, f, fr in faith:
        for v in (("newton", "inv_table_newton"), ("faith", "inv_faithful")):
            if v[0] == "newton" or (e, f) == (8, 23):
                lines.append("    rec<%d,%d,%d>(\"invf\", \"%s\", R<%d,%d,%d>::%s, seed, %d);\n"
                             % (e, f, fr, v[1], e, f, fr, v[0], n))
    for e, f in [(8, 16), (8, 8), (5, 10), (4, 4), (6, 12), (8, 12), (8, 3), (7, 14)]:
        lines.append("    rec<%d,%d,%d>(\"inv\", \"inv_direct\", R<%d,%d,%d>::direct, seed, %d);\n"
                     % (e, f, f, e, f, f, 2 * n))
    for _ in range(6 if tier == "quick" else 40):
        e, f, fr = r.randint(3, 12), r.randint(1, 14), r.randint(1, 50)
        lines.append("    rec<%d,%d,%d>(\"inv\", \"inv_direct\", R<%d,%d,%d>::direct, seed, %d);\n" % (e, f, fr, e, f, fr, n))
    for e, f in sweep(seed, "C04", 1, 60, 3, 14):
        lines.append("    rec<%d,%d,%d>(\"inv\", \"inv_v1\", R<%d,%d,%d>::inv1, seed, %d);\n" % (e, f, f, e, f, f, 500 if tier == "quick" else 4000))
    for i, (e, f) in enumerate(wide(seed, "C04", 12 if tier == "quick" else 60)):
        for v in (("inv1", "inv_v1"), ("inv", "inv"), ("ref", "ref_inv")):
            if v[0] == "inv1" or i % 3 == 0:
                lines.append("    rec<%d,%d,%d>(\"inv\", \"%s\", R<%d,%d,%d>::%s, seed, %d);\n" % (e, f, f, v[1], e, f, f, v[0], 500 if tier == "quick" else 4000))
    for f in (45, 47, 49, 50, 53, 56, 58):
        lines.append("    rec<%d,%d,%d>(\"invf\", \"inv_table_newton\", R<%d,%d,%d>::newton, seed, %d);\n" % (5 + f % 7, f, f, 5 + f % 7, f, f, 1000 if tier == "quick" else 8000))
    shards = []
    for k, part in enumerate(split(lines, 12 if tier == "quick" else 32)):
        shards.append(Shard("inv%02d" % k, program(["gens.hpp", "thls/tops/fp_flopoco_primitives.hpp"], DECL,
                                                   "".join(part))))
    # with diagnostics
    pick = lines[:3] + [x for x in lines if "newton" in x][3:7] + [x for x in lines if "faith" in x][:1] + [x for x in lines if "direct" in x][2:5] + lines[-2:]
    shards.append(Shard("inv_debug", program(["gens.hpp", "thls/tops/fp_flopoco_primitives.hpp"], DECL.replace(", 0))", ", dbg()))").replace("to_fp<E,F>(x))); }", "to_fp<E,F>(x), dbg())); }")
                                             .replace("ref_inv<E,FR>(to_fp<E,F>(x), dbg()", "ref_inv<E,FR>(to_fp<E,F>(x)"), "".join(pick))))
    return shards, []
