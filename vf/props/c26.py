"""C26: the shipped kernels compute what their names say."""
import os
import re
from vf import core
from vf.core import Shard, Model
from vf.fmts import rng, split, program

MP = "src/fp_ops/mp/"
PRIM, COMP, WORDS = MP + "fp/primitive/", MP + "fp/composite/", MP + "compressor/"


def source(path, subst=None):
    """A source file, with local includes expanded and CMake variables substituted; (includes, text)."""
    p = os.path.join(core.REPO, path)
    incs, text = [], []
    for line in open(p, encoding="utf-8", errors="replace"):
        m = re.match(r'\s*#\s*include\s*([<"])([^>"]+)[>"]', line)
        if not m:
            text.append(line)
            continue
        near = os.path.join(os.path.dirname(path), m.group(2))
        if m.group(1) == '"' and os.path.exists(os.path.join(core.REPO, near)):
            i, t = source(near)
            incs += i
            text.append(t + "\n")
        elif m.group(2) not in ("hls_half.h", "thls/tops/fp_softfloat.hpp"):
            incs.append("#include %s%s%s\n" % (m.group(1), m.group(2), '"' if m.group(1) == '"' else ">"))
    t = "".join(text)
    for k, v in (subst or {}).items():
        t = t.replace("${%s}" % k, str(v))
    return incs, t


def wrap(items, prelude=""):
    """Each (namespace, path, subst) in a namespace of its own, their includes in front of all."""
    incs, body = [], ""
    for ns, path, subst in items:
        i, t = source(path, subst)
        incs += [x for x in i if x not in incs]
        body += "namespace %s {\n%s\n}\n" % (ns, t)
    return "#include <cassert>\n#include <numeric>\n" + prelude + "".join(incs) + body


# ---- primitives
BIN = """
template<int E1,int F1,int E2,int F2,class FN> struct K {
  static FN *f;
  static V call(const V &x, const V &y) { V r = mkv(9,0,0,0);
    thls::fp_flopoco<E1,F1> t(f(to_fp<E1,F1>(x).bits, to_fp<E2,F2>(y).bits)); return from_fp(t); }
};
template<int E1,int F1,int E2,int F2,class FN> FN *K<E1,F1,E2,F2,FN>::f;
template<int E1,int F1,int E2,int F2,class FN> void flo(const char *op, const char *v, FN *f, uint64_t seed, long n, gen2 g) {
  typedef K<E1,F1,E2,F2,FN> T; T::f = f;
  Bin b = {op, v, E1, F1, E2, F2, E1, F1, T::call};
  run_bin(b, seed, n, g);
}
"""
IEEE = """
template<int E,int F,class W,class FN> struct KI {
  static FN *f;
  static V call(const V &x, const V &y) { return from_ie<E,F>(f(W(to_ie<E,F>(x)), W(to_ie<E,F>(y))).raw); }
};
template<int E,int F,class W,class FN> FN *KI<E,F,W,FN>::f;
template<int E,int F,class FN> void iof(const char *op, const char *v, FN *f, uint64_t seed, long n, gen2 g) {
  typedef KI<E,F,typename thls::policy_ieee_on_flopoco<E,F>::value_t,FN> T; T::f = f;
  Bin b = {op, v, E, F, E, F, E, F, T::call, 1};
  Rng r(bin_seed(b, seed));
  out.group(binhead(b));
  g(b, r, n);
  std::vector<V> sp = ie_values(r, E, F, 0);
  for (long i = 0; i < n / 4; i++) rec2(b, sp[r.below(sp.size())], sp[r.below(sp.size())]);
  for (long i = 0; i < n / 4; i++) rec2(b, ie_value(r, E, F), ie_value(r, E, F));
}
"""
NATIVE = """
template<class T,int E,int F> struct KN {
  static T (*f)(T, T);
  static V ex(T t) { V v; typedef typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type U; U b; memcpy(&b, &t, sizeof t);
    return mkv(1, (int)(b >> (E+F)), (int)(b >> F) & ((1 << E) - 1), b & mask128(F)); }
  static V call(const V &x, const V &y) { return ex(f(Ty<T>::in(x), Ty<T>::in(y))); }
  static void run(const char *op, const char *v, T (*g)(T, T), uint64_t seed, long n, gen2 gen) {
    f = g;
    Bin b = {op, v, E, F, E, F, E, F, call, 1};
    Rng r(bin_seed(b, seed));
    out.group(binhead(b));
    gen(b, r, n);
    std::vector<V> sp = ie_values(r, E, F, 0);
    for (long i = 0; i < n; i++) rec2(b, r.coin() ? sp[r.below(sp.size())] : ie_value(r, E, F), r.coin() ? sp[r.below(sp.size())] : ie_value(r, E, F));
  }
};
template<class T,int E,int F> T (*KN<T,E,F>::f)(T, T);
"""


def fits_add(f):
    return 2 * f + 4 <= 126


def flopoco(seed, quick):
    """Templates the build instantiates per format."""
    r = rng(seed, "c26flo")
    n = 120 if quick else 800
    todo = {}                         # family -> [(item, call)]

    def inst(family, name, path, fn, op, gen, subst, e1, f1, e2, f2, v):
        ns = "ns_%s_%s" % (name, "_".join(str(x) for x in subst.values()))
        todo.setdefault(family, []).append(((ns, PRIM + path, subst),
            "    flo<%d,%d,%d,%d>(\"%s\", \"%s\", %s::%s, seed, %d, %s);\n" % (e1, f1, e2, f2, op, v, ns, fn, n, gen)))

    def square(family, name, op, gen, fmts):
        for e, f in fmts:
            inst(family, name, "fp_%s_EEE_FFF.cpp" % name, "fp_%s_%d_%d" % (name, e, f), op, gen, {"EEE": e, "FFF": f}, e, f, e, f, name)

    def some(lo, hi, k, ok=lambda f: True):
        fs = [f for f in range(lo, hi + 1) if ok(f)]
        out = [(8, 23), (5, 10), (11, 52)] if hi >= 52 else [(8, 23), (5, 10)]
        out = [(e, f) for e, f in out if f in fs]
        while len(out) < k:
            p = (r.randint(4, 11), r.choice(fs))
            if p not in out:
                out.append(p)
        return out
    k = 6 if quick else 16
    square("base", "add_flopoco_dual", "add", "gen_add", some(4, 52, k))
    square("base", "add_flopoco_single", "add", "gen_add", some(4, 52, k))
    square("mul", "mul_flopoco", "mul", "gen_mul", some(4, 52, k))
    for v in (2, 3, 4):
        ok = (lambda f: (f + 5).bit_length() == 5) if v == 3 else (lambda f: True)
        square("v%d" % v, "add_flopoco_single_v%d" % v, "add", "gen_add", some(4, 52, 4 if quick else 8, ok))
    square("div", "div_flopoco", "div", "gen_div", some(4, 52, k))
    square("div2", "div_flopoco_v2", "div", "gen_div", some(4, 52, k))
    pairs = [(8, 23, 8, f) for f in range(3, 45, 2)] + [(11, 52, 11, f) for f in range(4, 53, 4)]
    for op, gen, fam in [("add", "gen_add", "ratio_add"), ("mul", "gen_mul", "ratio_mul")]:
        ps = [p for p in pairs if op == "mul" or p[3] <= p[1]]
        ps = r.sample(ps, min(len(ps), 5 if quick else 40))
        for p in ps:
            nm = "add_flopoco_single_ratio" if op == "add" else "mul_flopoco_ratio"
            fn = ("fp_add_flopoco_single_" if op == "add" else "fp_mul_flopoco_ratio_") + "_".join(map(str, p))
            inst(fam, nm, "fp_%s_EEE1_FFF1_EEE2_FFF2.cpp" % nm, fn, op, gen, dict(zip(["EEE1", "FFF1", "EEE2", "FFF2"], p)), *p, v=nm)
    shards = []
    for fam, xs in sorted(todo.items()):
        for i, part in enumerate(split(xs, 2 if fam in ("base", "mul") else 1)):
            shards.append(Shard("%s%d" % (fam, i), program(["gens.hpp"], BIN + wrap([x[0] for x in part]), "".join(x[1] for x in part))))
    return shards


def ieee(seed, quick):
    r = rng(seed, "c26ieee")
    shards = []
    for op, gen in [("add", "gen_add"), ("mul", "gen_mul"), ("div", "gen_div")]:
        fmts = [(8, 23), (11, 52)]
        while len(fmts) < (5 if quick else 14):
            fmts.append((r.randint(4, 11), r.randint(4, 52)))
        fmts = sorted(set(fmts))
        items, calls = [], ""
        for e, f in fmts:
            ns = "ns_%s_%d_%d" % (op, e, f)
            items.append((ns, PRIM + "fp_%s_ieee_on_flopoco_EEE_FFF.cpp" % op, {"EEE": e, "FFF": f}))
            calls += "    iof<%d,%d>(\"ieee%s\", \"kernel\", %s::fp_%s_ieee_on_flopoco_%d_%d, seed, %d, %s);\n" % (e, f, op, ns, op, e, f, 300 if quick else 3000, gen)
        shards.append(Shard("iof_" + op, program(["ieee.hpp"], wrap(items, '#include "thls/tops/policy_ieee_on_flopoco.hpp"\n') + IEEE, calls)))
    return shards


def native(seed, quick):
    items, calls = [], ""
    for name in ["add_native_8_23", "add_native_nodsp_8_23", "add_native_fulldsp_8_23", "mul_native_8_23", "mul_native_nodsp_8_23",
                 "mul_native_meddsp_8_23", "mul_native_fulldsp_8_23", "mul_native_maxdsp_8_23", "div_native_8_23",
                 "add_native_11_52", "add_native_nodsp_11_52", "mul_native_11_52", "div_native_11_52"]:
        op = name[:3]
        t, e, f = ("float", 8, 23) if name.endswith("8_23") else ("double", 11, 52)
        items.append(("ns_" + name, PRIM + "fp_%s.cpp" % name, {}))
        calls += "    KN<%s,%d,%d>::run(\"soft%s\", \"%s\", ns_%s::fp_%s, seed, %d, gen_%s);\n" % (t, e, f, op, name, name, name, 600 if quick else 8000, op)
    return [Shard("native", program(["kernel.hpp"], NATIVE + wrap(items), calls))]


# ---- programs over several values
def composite(seed, quick):
    r = rng(seed, "c26comp")
    fmts = [(4, 2), (4, 7), (5, 10), (8, 23), (11, 52)] + [(r.randint(4, 9), r.randint(4, 40)) for _ in range(1 if quick else 8)]
    types = ["thls::fp_flopoco_wrapper<%d,%d>" % p for p in fmts] + ["float", "double"]
    inc = '#include "thls/tops/policy_flopoco.hpp"\n'
    n = 400 if quick else 4000
    files = {"sum": ("fp_sum_array.cpp", "fp_sum_array_native_8_23", 'k_sum<T>("sum", "sum_array", [](int n, const T *x) { return %s<T>(n, x); }, seed, N, 1, false)'),
             "sumu2": ("fp_sum_array_u2.cpp", "fp_sum_array_u2", 'k_sum<T>("sumu2", "sum_array_u2", [](int n, const T *x) { return %s<T>(n, x); }, seed, N, 2, true)'),
             "dot": ("fp_dot_product.cpp", "fp_dot_product", 'k_dot<T>("dot", "dot_product", [](int n, const T *x, const T *y) { return %s<T>(n, x, y); }, seed, N, 1)'),
             "dotu2": ("fp_dot_product_u2.cpp", "fp_dot_product_u2", 'k_dot<T>("dot", "dot_product_u2", [](int n, const T *x, const T *y) { return %s<T>(n, x, y); }, seed, N, 2)'),
             "bal": ("fp_sum_vec4_balanced.cpp", "fp_sum_array_vec4_balanced", 'k_four<T>("bal4", "vec4_balanced", [](T a, T b, T c, T d) { return %s<T>(a, b, c, d); }, seed, N)'),
             "left": ("fp_sum_vec4_left.cpp", "fp_sum_array_vec4_left", 'k_four<T>("left4", "vec4_left", [](T a, T b, T c, T d) { return %s<T>(a, b, c, d); }, seed, N)'),
             "mmm": ("fp_mmm.cpp", "mmm", 'k_mmm<T>("matmul", "mmm", [](int n, const T *x, const T *y, T *z) { %s<T>(n, x, y, z); }, seed, N / 12, 1, 5)'),
             "mmmu2": ("fp_mmm_u2.cpp", "mmm", 'k_mmm<T>("matmulu2", "mmm_u2", [](int n, const T *x, const T *y, T *z) { %s<T>(n, x, y, z); }, seed, N / 12, 2, 6)')}
    shards = []
    for group in (["sum", "sumu2", "bal", "left"], ["dot", "dotu2"], ["mmm", "mmmu2"]):
        decl = wrap([("ns_" + g, COMP + files[g][0], {}) for g in group], inc)
        decl += "template<class T> void all(uint64_t seed, int N) {\n%s}\n" % "".join("    %s;\n" % (files[g][2] % ("ns_%s::%s" % (g, files[g][1]))) for g in group)
        shards.append(Shard("comp_" + group[0], program(["kernel.hpp"], decl, "".join("    all<%s >(seed, %d);\n" % (t, n) for t in types)), spec="TraceKernel"))
    return shards


def examples(seed, quick):
    inc = '#include "kernel.hpp"\n#include "thls/tops/policy_flopoco.hpp"\n#include <random>\n#include <vector>\n#include <cmath>\n#include <cstdio>\n'
    decl = wrap([("ns_sum", "src/examples/sum.cpp", {}), ("ns_dot", "src/examples/dot_product.cpp", {})], inc) + """
// floats are read with subnormals as zero and the sum is kept in the internal format
static void all(uint64_t seed, int N) {
  std::string T = tyj(1, 8, 23), A = tyj(0, 8, 23);
  for (int d = 0; d < 2; d++) {
    Rng r(seed * 77777ull + d);
    out.group(khead(d ? "dot" : "sum", d ? "example_dot" : "example_sum", A, A, T, T, T, 0));
    for (int i = 0; i < N; i++) {
      int n = i < 10 ? i : (int)r.below(14);
      std::vector<V> xs = kvals<float>(r, n, d, 1), ys = kvals<float>(r, n, d, 1);
      std::vector<float> x = ins<float>(xs), y = ins<float>(ys);
      x.push_back(0); y.push_back(0);
      float z = 0;
      volatile int rc = guarded([&]() { z = d ? ns_dot::dot_product(n, &x[0], &y[0]) : ns_sum::sum(n, &x[0]); });
      out.begin_case(); put_vals(xs, 1); out.sep();
      if (d) { put_vals(ys, 1); out.sep(); }
      if (rc) put_stop(rc); else putr(z);
      out.end_case();
    }
  }
}
"""
    return [Shard("examples", program(["kernel.hpp"], decl, "    all(seed, %d);\n" % (1500 if quick else 20000)), spec="TraceKernel")]


# the number types of the benchmarks
HLS = {"hls16": (5, 10), "hls24": (7, 16), "hls32": (8, 23), "hls48": (9, 38), "hls64": (11, 52)}
NAT = {"nat32": (8, 23), "nat64": (11, 52)}
STUB = """
#include "thls/tops/policy_flopoco.hpp"
#include "thls/tops/fp_promote.hpp"
#include "thls/tops/fp_flopoco_primitives.hpp"   // the definition of mul, which the programs lack (a known finding)
// stand-ins for the vendor's half precision and the softfloat wrapper, whose variants are not run
typedef long double half;
namespace thls { struct fp_softfloat32 {}; inline fp_softfloat32 add(fp_softfloat32, fp_softfloat32) { return fp_softfloat32(); }
                 inline fp_softfloat32 mul(fp_softfloat32, fp_softfloat32) { return fp_softfloat32(); } }
"""


def benchmarks(seed, quick):
    shards = []
    base = "src/benchmarks/"
    skip = {f for k in core.known_findings("C26") for f in k.get("programs", [])}
    for dirn, pre, fn in [("dot_product/", "dot_product_par4_tl_", "dot_product_par4"), ("mat_mul/", "mat_mul_16x16_", "mat_mul")]:
        items, calls = [], []
        for f in sorted(os.listdir(os.path.join(core.REPO, base + dirn))):
            m = re.match(re.escape(pre) + r"(\w+?)_(\w+?)_(\w+?)_(round|full)\.cpp$", f)
            if not m or f in skip:
                continue
            a, x, y, how = m.groups()
            if a in NAT and x in NAT and y in NAT:
                t = "[2,%d,%d]" % NAT[x]                       # products of the left operand's type
            elif a in HLS and x in HLS and y in HLS:
                t = "[0,%d,%d]" % (HLS[a][0], HLS[a][1] if how == "full" else max(HLS[x][1], HLS[y][1]))
            else:
                continue
            ns = "ns_" + f[:-4]
            items.append((ns, base + dirn + f, {}))
            if fn == "mat_mul":
                calls.append("    k_mat16<%s::%s, %s::%s, %s::%s>(\"%s\", \"%s\", %s::mat_mul, seed, %d);\n" % (ns, a, ns, x, ns, y, ns[3:], t, ns, 1 if quick else 12))
            else:
                calls.append("    k_par4<%s::%s, %s::%s, %s::%s>(\"%s\", \"%s\", %s::dot_product_par4, seed, %d);\n" % (ns, a, ns, x, ns, y, ns[3:], t, ns, 500 if quick else 8000))
        for i, part in enumerate(split(list(zip(items, calls)), 2)):
            shards.append(Shard("bench_%s%d" % (fn[:3], i), program(["kernel.hpp"], wrap([p[0] for p in part], STUB), "".join(p[1] for p in part)), spec="TraceKernel"))
    return shards


def words(seed, quick):
    items, calls = [], ""
    for name in ["add32x4_compressor", "add32x4_row_heap", "add32x8", "add32x8_compressor", "add32x8_row_heap", "add64x8", "add64x8_compressor"]:
        w, n = int(name[3:5]), int(name[6])
        items.append(("ns_" + name, WORDS + name + ".cpp", {}))
        calls += "    k_words<%d,%d>(\"%s\", [](u128 *a) { return from_fw<%d>(ns_%s::%s(%s)); }, seed, %d);\n" % (
            w, n, name, w, name, name, ", ".join("to_fw<%d>(a[%d])" % (w, i) for i in range(n)), 800 if quick else 20000)
    return [Shard("words", program(["kernel.hpp"], wrap(items), calls), spec="TraceKernel")]


def plan(seed, tier):
    quick = tier == "quick"
    shards = flopoco(seed, quick) + ieee(seed, quick) + native(seed, quick) + composite(seed, quick) + examples(seed, quick) \
        + benchmarks(seed, quick) + words(seed, quick)
    return shards, [Model("kernels", "KernelModel", "KernelModel" if quick else "KernelModelL", workers=2, timeout=3000, min_states=700)]
