"""C23: compile-time constants."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program

DECL = """
#include "thls/core/base_ops.hpp"
#include "thls/tops/function_utils.hpp"
static std::string sgn(int64_t x) { return "[" + S(x < 0) + "," + nat(x < 0 ? (u128)0 - (u128)(__int128)x : (u128)x) + "]"; }
template<int64_t A, int64_t B> void max_() { emit(sgn(A) + "," + sgn(B) + "," + sgn(thls::ctMax<A,B>::val)); }
template<int64_t A, int64_t B> void min_() { emit(sgn(A) + "," + sgn(B) + "," + sgn(thls::ctMin<A,B>::val)); }
template<int64_t A, int64_t B, int64_t C, int64_t D> void max4() { emit(sgn(A) + "," + sgn(B) + "," + sgn(C) + "," + sgn(D) + "," + sgn(thls::ctMax4<A,B,C,D>::val)); }
template<int64_t A, int64_t B, int64_t C, int64_t D> void min4() { emit(sgn(A) + "," + sgn(B) + "," + sgn(C) + "," + sgn(D) + "," + sgn(thls::ctMin4<A,B,C,D>::val)); }
template<int64_t A, int K> void shl() { emit(sgn(A) + "," + S(K) + "," + sgn(thls::ctCheckedShiftLeft<A,K>::val)); }
template<int K> void shr(int64_t a) { emit(sgn(a) + "," + S(K) + "," + sgn(shift_right_const<K>(a))); }
template<int A, int B> void imax() { constexpr int c = ::thls_ctMax(A, B); volatile int a = A, b = B; emit(sgn(A) + "," + sgn(B) + "," + sgn(::thls_ctMax(a, b) == c ? c : c ^ 1)); }
template<int A, int B> void imin() { constexpr int c = ::thls_ctMin(A, B); volatile int a = A, b = B; emit(sgn(A) + "," + sgn(B) + "," + sgn(::thls_ctMin(a, b) == c ? c : c ^ 1)); }
template<class T, T A> void width() { constexpr int c = ::thls_ctLog2Ceil(A); emit(nat(A) + "," + S(c)); }
template<size_t... I> std::string seq(thls::index_sequence<I...>) { size_t q[] = {I..., 0}; std::string o = "["; for (size_t i = 0; i < sizeof...(I); i++) o += (i ? "," : "") + S((int)q[i]); return o + "]"; }
template<size_t N> void sequence() { emit(S((int)N) + "," + seq(thls::make_index_sequence<N>())); }
template<int e, int64_t A, int f, int64_t B> void fix() {
  emit("[" + S(e) + "," + sgn(A) + "],[" + S(f) + "," + sgn(B) + "],[" + S((int)thls::ctFixCompare<e,A,f,B>::val) + ","
    + S((int)thls::ctFixLessThan<e,A,f,B>::val) + "," + S((int)thls::ctFixLessThanEquals<e,A,f,B>::val) + ","
    + S((int)thls::ctFixEquals<e,A,f,B>::val) + "," + S((int)thls::ctFixGreaterThanEquals<e,A,f,B>::val) + ","
    + S((int)thls::ctFixGreaterThan<e,A,f,B>::val) + "]"); }
"""


def lit(x):
    return "INT64_MIN" if x == -(1 << 63) else "INT64_C(%d)" % x


def ilit(x):
    return "INT32_MIN" if x == -(1 << 31) else "%d" % x


def plan(seed, tier):
    r = rng(seed, "C23")
    n = 60 if tier == "quick" else 600
    edges = [0, 1, -1, 2, -2, 3, (1 << 31) - 1, 1 << 31, -(1 << 31), 1 << 32, (1 << 32) + 1, (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, 1 << 62]

    def num(bits=63):
        if bits == 63 and r.random() < .4:
            return r.choice(edges)
        b = r.randint(0, bits)
        return r.choice([1, -1]) * r.randrange(1 << b) if b else 0

    ops = {k: [] for k in ("max", "min", "max4", "min4", "imax", "imin", "width", "sequence", "shl", "shr", "fix")}
    for _ in range(n):
        a, b = num(), num()
        b = r.choice([a, b, b, max(a - 1, -(1 << 63)), min(a + 1, (1 << 63) - 1)])
        ops["max"].append("max_<%s,%s>()" % (lit(a), lit(b)))
        ops["min"].append("min_<%s,%s>()" % (lit(a), lit(b)))
        q = [num() for _ in range(4)]
        q.sort()
        p = r.sample(q, 4)
        ops["max4"].append("max4<%s>()" % ",".join(map(lit, p)))
        r.shuffle(p)
        ops["min4"].append("min4<%s>()" % ",".join(map(lit, p)))
        k = r.choice([0, 1, 31, 32, 61, 62, r.randint(0, 62)])
        v = r.choice([num(63 - k), num(63 - k), (1 << (63 - k)) - 1, -(1 << (63 - k)) + 1, -(1 << (63 - k))])
        ops["shl"].append("shl<%s,%d>()" % (lit(v), k))
        ops["shr"].append("shr<%d>(%s)" % (r.choice([0, 1, 2, 31, 32, 33, 62, 63, r.randint(0, 63)]), lit(num())))
        a, b = (max(-(1 << 31), min((1 << 31) - 1, num(31))) for _ in range(2))
        b = r.choice([a, b, b, max(a - 1, -(1 << 31)), min(a + 1, (1 << 31) - 1)])
        ops["imax"].append("imax<%s,%s>()" % (ilit(a), ilit(b)))
        ops["imin"].append("imin<%s,%s>()" % (ilit(a), ilit(b)))
        t, k = r.choice([("int", 30), ("unsigned", 31), ("int64_t", 62), ("uint64_t", 63)])
        k = r.choice([k, r.randint(0, k)])
        v = r.choice([(1 << k) - 1, 1 << max(k - 1, 0), r.randrange(1 << k), 0])
        ops["width"].append("width<%s,%dull>()" % (t, min(v, (1 << k) - 1)))
    ops["sequence"] = ["sequence<%d>()" % k for k in (0, 1, 2, 3, 7, 16, 33, 64)]
    # every pair of places of the four corners, then equal, adjacent and random values over different exponents
    fx = [(e, a, f, b) for e in (-2, 0, 1) for f in (-1, 0, 3) for a in (-1, 0, 1, 5) for b in (-2, 0, 1, 2)]
    for _ in range(n * 3):
        e = r.randint(-70, 70)
        d = r.choice([0, 0, 1, 2, 5, 30, 31, 32, r.randint(0, 61)])
        a = num(62 - d)
        b = (a << d) + r.choice([0, 0, 1, -1, 2, r.choice([1, -1]) * r.randrange(1 << (d + 1))]) if r.random() < .7 else num(62)
        t = [(e + d, a), (e, b)]
        r.shuffle(t)
        fx.append(t[0] + t[1])
    ops["fix"] = ["fix<%d,%s,%d,%s>()" % (e, lit(a), f, lit(b)) for e, a, f, b in fx]
    body = []
    for k, v in ops.items():
        body.append('    out.group("\\"op\\":\\"%s\\",\\"v\\":\\"core\\",\\"p\\":[]");\n' % k + "".join("    %s;\n" % x for x in v))
    shards = [Shard("const%02d" % k, program(["ct.hpp"], DECL, "".join(p)), spec="TraceCt") for k, p in enumerate([body[:6], body[6:]])]
    return shards, [Model("fix", "CtConstModel", "CtConstModel", workers=2, min_states=40000)]
