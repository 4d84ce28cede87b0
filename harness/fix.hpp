// Recording of fixed-point numbers.
#ifndef verif_fix_hpp
#define verif_fix_hpp
#include "fw.hpp"
#include "thls/tops/fp_flopoco_primitives.hpp"
#include "thls/tops/fp_flopoco_inv_nr.hpp"
using thls::fw_fix;

struct Got { u128 v; int flag, msb, lsb; };
template<int M, int L> inline fw_fix<M,L> fx(u128 b) { return fw_fix<M,L>(mk<M - L + 1>(b)); }
template<int M, int L> inline Got got(const fw_fix<M,L> &x, int flag = 0) { Got g; g.v = raw(x.bits); g.flag = flag; g.msb = M; g.lsb = L; return g; }
inline Got undefined() { Got g; g.v = 0; g.flag = 9; g.msb = 0; g.lsb = 0; return g; }
inline std::string ff(int m, int l) { return "[" + S(m) + "," + S(l) + "]"; }
inline std::string fhead(const char *op, const std::string &f, const Got &g, const std::string &p) {
    return std::string("\"op\":\"") + op + "\",\"v\":\"fw_fix\",\"f\":[" + f + "],\"r\":" + ff(g.msb, g.lsb) + ",\"p\":[" + p + "]";
}
// A number whose lowest d bits lie at, or right beside, the middle or an end, or anywhere.
inline u128 cut(Rng &r, int w, int d) {
    u128 x = frac_pattern(r, w);
    if (d <= 0 || d >= 128) return x;
    u128 m = mask128(d > w ? w : d), half = (u128)1 << (d - 1), t;
    switch (r.below(9)) {
    case 0: t = half; break;
    case 1: t = half + 1; break;
    case 2: t = half - 1; break;
    case 3: t = 0; break;
    case 4: t = 1; break;
    case 5: t = m; break;
    case 6: t = half | ((u128)1 << r.below(d)); break;
    case 7: t = half + (half >> 1); break;
    default: return x;
    }
    return ((x & ~m) | (t & m)) & mask128(w);
}
template<class F1> inline void un(const char *op, int m, int l, const std::string &p, std::vector<u128> xs, F1 f) {
    std::string open;
    for (size_t i = 0; i < xs.size(); i++) {
        Got g;
        if (guarded([&]() { g = f(xs[i]); })) g = undefined();
        std::string h = fhead(op, ff(m, l), g, p);
        if (h != open) { out.group(h); open = h; }
        out.begin_case(); out.nat(xs[i]); out.sep(); out.nat(g.v); out.sep(); out.num(g.flag); out.end_case();
    }
}
template<class F2> inline void bin(const char *op, int m, int l, int m2, int l2, const std::vector<std::pair<u128,u128> > &xs, F2 f) {
    std::string open;
    for (size_t i = 0; i < xs.size(); i++) {
        Got g;
        if (guarded([&]() { g = f(xs[i].first, xs[i].second); })) g = undefined();
        std::string h = fhead(op, ff(m, l) + "," + ff(m2, l2), g, "");
        if (h != open) { out.group(h); open = h; }
        out.begin_case(); out.nat(xs[i].first); out.sep(); out.nat(xs[i].second); out.sep(); out.nat(g.v); out.sep(); out.num(g.flag); out.end_case();
    }
}
inline std::vector<u128> cuts(Rng &r, int w, int d, int n) {
    std::vector<u128> v;
    if (w <= 8) for (int i = 0; i < (1 << w); i++) v.push_back(i);
    else for (int i = 0; i < n; i++) v.push_back(cut(r, w, d));
    return v;
}
inline std::vector<std::pair<u128,u128> > two(Rng &r, int w1, int w2, int n) {
    std::vector<std::pair<u128,u128> > v;
    if (w1 + w2 <= 8) for (int i = 0; i < (1 << (w1 + w2)); i++) v.push_back(std::make_pair((u128)(i & mask128(w1)), (u128)(i >> w1)));
    else for (int i = 0; i < n; i++) v.push_back(std::make_pair(frac_pattern(r, w1), frac_pattern(r, w2)));
    return v;
}
// Significands with the leading one, the smallest and largest included.
inline std::vector<u128> sigs(Rng &r, int w, int n) {
    std::vector<u128> v;
    u128 top = (u128)1 << (w - 1);
    if (w <= 9 || (u128)n >= top) for (u128 i = 0; i < top; i++) v.push_back(top + i);
    else {
        for (int i = 0; i < 4; i++) { v.push_back(top + i); v.push_back(top + (top - 1 - i)); }
        for (int i = 0; i < n; i++) v.push_back(top | frac_pattern(r, w - 1));
    }
    return v;
}

template<int M, int L, int M2, int L2> void pair_ops(Rng &r, int n) {
    auto v = two(r, M - L + 1, M2 - L2 + 1, n);
    bin("mul", M, L, M2, L2, v, [](u128 a, u128 b) { return got(fx<M,L>(a) * fx<M2,L2>(b)); });
}
template<int M, int L, int M2, int L2> void sub_ops(Rng &r, int n) {
    auto v = two(r, M - L + 1, M2 - L2 + 1, n);
    bin("sub", M, L, M2, L2, v, [](u128 a, u128 b) { return got(thls::sub_match(fx<M,L>(a), fx<M2,L2>(b))); });
}
template<int M, int L> void same_ops(Rng &r, int n) {
    auto v = two(r, M - L + 1, M - L + 1, n);
    for (size_t i = 0; i < v.size(); i += 3) v[i].second = v[i].first;
    bin("sub", M, L, M, L, v, [](u128 a, u128 b) { return got(fx<M,L>(a) - fx<M,L>(b)); });
}
template<int P, int M, int L> void scale(Rng &r, int n) {
    un("scale", M, L, S(P), cuts(r, M - L + 1, 0, n), [](u128 a) { return got(thls::ldexp_const<P>(fx<M,L>(a))); });
}
template<int LR, int M, int L> void round(Rng &r, int n) {
    un("round", M, L, S(LR), cuts(r, M - L + 1, LR - L, n), [](u128 a) { thls::fw_uint<1> o; auto x = thls::round_to_lsb<LR>(fx<M,L>(a), o); return got(x, o.to_int()); });
    un("round", M, L, S(LR), cuts(r, M - L + 1, LR - L, n), [](u128 a) { thls::fw_uint<1> o; fw_fix<M,LR> x(thls::round_frac<M - LR + 1>(mk<M - L + 1>(a), o)); return got(x, o.to_int()); });
}
template<int LR, int M, int L> void trunc(Rng &r, int n) {
    un("trunc", M, L, S(LR), cuts(r, M - L + 1, LR - L, n), [](u128 a) { return got(thls::trunc_to_lsb<LR>(fx<M,L>(a))); });
}
template<int MR, int M, int L> void drop(Rng &r, int n) {
    auto v = cuts(r, M - L + 1, 0, n);
    for (size_t i = 0; i < v.size(); i += 2) v[i] &= mask128(MR - L + 1 + (int)r.below(2));
    un("drop", M, L, S(MR), v, [](u128 a) { thls::fw_uint<1> o; auto x = thls::truncate_to_msb<MR>(fx<M,L>(a), o); return got(x, o.to_int()); });
}
template<int M, int L> void make(Rng &r, int n) {
    un("make", M, L, "", cuts(r, M - L + 1, 0, n), [](u128 a) { return got(fw_fix<M,L>((uint64_t)a)); });
}
inline void put_double(double d) {
    uint64_t b; memcpy(&b, &d, 8);
    out.line += "[" + S((long)(b >> 63)) + "," + S((long)((b >> 52) & 2047)) + ",";
    out.nat(b & mask128(52)); out.line += ']';
}
template<int M, int L> void dbl(Rng &r, int n) {
    auto v = cuts(r, M - L + 1, 0, n);
    Got g = got(fx<M,L>(0));
    out.group(fhead("double", ff(M, L), g, ""));
    for (size_t i = 0; i < v.size(); i++) {
        double d = 0; int flag = guarded([&]() { d = fx<M,L>(v[i]).to_double(); }) ? 9 : 0;
        out.begin_case(); out.nat(v[i]); out.sep(); put_double(d); out.sep(); out.num(flag); out.end_case();
    }
}
// z near 1/y, so that the step stays in its range
template<int MR, int LR, int LZ, int LY> void step(Rng &r, int n) {
    std::vector<std::pair<u128,u128> > v;
    auto ys = sigs(r, 1 - LY, n);
    for (size_t i = 0; i < ys.size(); i++) {
        long double y = ldexpl((long double)ys[i], LY);
        u128 z = (u128)(ldexpl(1.0L / y, -LZ));
        int w = 1 - LZ, e = (int)r.below(w / 2 + 1);
        u128 d = r.bits(e);
        z = r.coin() ? z - d : z + d;
        if (z > mask128(w)) z = mask128(w);
        v.push_back(std::make_pair(z, ys[i]));
    }
    std::string open;
    for (size_t i = 0; i < v.size(); i++) {
        Got g;
        if (guarded([&]() { g = got(thls::inv_frac_newton_step<MR,LR>(fx<0,LZ>(v[i].first), fx<0,LY>(v[i].second))); })) { g = undefined(); g.msb = MR; g.lsb = LR; }
        std::string h = fhead("step", ff(0, LZ) + "," + ff(0, LY), g, "");
        if (h != open) { out.group(h); open = h; }
        out.begin_case(); out.nat(v[i].first); out.sep(); out.nat(v[i].second); out.sep(); out.nat(g.v); out.sep(); out.num(g.flag); out.end_case();
    }
}
template<int LR, int LY> void start(Rng &r, int n) {
    un("start", 0, LY, "", sigs(r, 1 - LY, n), [](u128 a) { return got(thls::inv_frac_starter_table<0,LR>(fx<0,LY>(a))); });
}
template<int LR, int LY> void direct(Rng &r, int n) {
    un("nearest", 0, LY, "", sigs(r, 1 - LY, n), [](u128 a) { return got(thls::inv_frac_direct_table<0,LR>(fx<0,LY>(a))); });
}
template<int LR, int LY> void newton(Rng &r, int n) {
    un("faithful", 0, LY, "", sigs(r, 1 - LY, n), [](u128 a) { return got(thls::inv_frac_table_newton<LR>(fx<0,LY>(a))); });
}
#endif
