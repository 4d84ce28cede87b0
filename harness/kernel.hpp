// Runs shipped programs (reductions, products of matrices, adders of words) on
// generated inputs and records inputs and results.
#ifndef verif_kernel_hpp
#define verif_kernel_hpp
#include "machine.hpp"
#include "thls/tops/policy_flopoco.hpp"

// ---- the types the programs are written over
template<class T> struct Ty;
template<int E_, int F_> struct Ty<thls::fp_flopoco<E_, F_> > {
    enum { E = E_, F = F_, K = 0 };
    static thls::fp_flopoco<E, F> in(const V &v) { return to_fp<E, F>(v); }
    static void put(const thls::fp_flopoco<E, F> &x) { out.val(from_fp(x)); }
};
template<int E_, int F_> struct Ty<thls::fp_flopoco_wrapper<E_, F_> > {
    enum { E = E_, F = F_, K = 0 };
    typedef thls::fp_flopoco_wrapper<E, F> W;
    static W in(const V &v) { return W(to_fp<E, F>(v)); }
    static void put(const W &x) { out.val(from_fp(x.raw)); }
};
template<> struct Ty<float> {
    enum { E = 8, F = 23, K = 2 };
    static float in(const V &v) { uint32_t b = ((uint32_t)v.s << 31) | ((uint32_t)v.e << 23) | (uint32_t)v.f; float t; memcpy(&t, &b, 4); return t; }
    static void put(float x) { putr(x); }
};
template<> struct Ty<double> {
    enum { E = 11, F = 52, K = 2 };
    static double in(const V &v) { uint64_t b = ((uint64_t)v.s << 63) | ((uint64_t)v.e << 52) | (uint64_t)v.f; double t; memcpy(&t, &b, 8); return t; }
    static void put(double x) { putr(x); }
};
inline std::string tyj(int k, int e, int f) { return "[" + S(k) + "," + S(e) + "," + S(f) + "]"; }
inline std::string khead(const char *op, const char *v, const std::string &ta, const std::string &tm, const std::string &tx, const std::string &ty,
                         const std::string &tr, int n) {
    return std::string("\"op\":\"") + op + "\",\"v\":\"" + v + "\",\"ta\":" + ta + ",\"tm\":" + tm + ",\"tx\":" + tx + ",\"ty\":" + ty +
           ",\"tr\":" + tr + ",\"n\":" + S(n) + ",\"w\":0";
}

// ---- inputs: runs of values of one magnitude with cancellations, values far
// apart, values at the ends of the range, and now and then a special
struct Style { int at, spread, neg, special, back; };
inline Style style(Rng &r, int E, int F, bool product) {
    int bias = (1 << (E - 1)) - 1, top = (1 << E) - 1;
    Style s;
    switch (r.below(8)) {
    case 0: s.at = product ? bias / 2 - (int)r.below(F + 4) / 2 : 1 + (int)r.below(F + 4); break;        // towards underflow
    case 1: s.at = product ? bias + bias / 2 : top - 1 - (int)r.below(3); break;                          // towards overflow
    default: s.at = bias + (int)r.below(7) - 3; }
    int sp[] = {0, 1, 2, F / 2 + 1, F + 2, top};
    s.spread = sp[r.below(6)];
    s.neg = r.below(4);
    s.special = r.below(6) == 0;
    s.back = r.below(3);
    return s;
}
inline V kval(Rng &r, int E, int F, int K, const Style &s, const std::vector<V> &so_far) {
    if (s.special && r.below(4) == 0) {
        if (K) return ie_value(r, E, F);
        return any_value(r, E, F);
    }
    if (s.special && r.below(6) == 0) {
        if (K) { int top = (1 << E) - 1; int k = r.below(3); return mkv(1, r.coin(), k == 0 ? 0 : top, k == 2 ? r.bits(F) : 0); }
        return mkv((int)r.below(3) == 0 ? 3 : r.coin() ? 2 : 0, r.coin(), r.below(1 << E), r.bits(F));
    }
    if (s.back && !so_far.empty() && r.below(4) == 0) {     // a value met before, negated or one off
        V v = so_far[r.below(so_far.size())];
        v.s = !v.s;
        if (s.back == 2 && v.c == 1) v.f ^= r.below(2);
        v.f &= mask128(F);
        if (K && v.e == (1 << E) - 1) v.f = 0;
        return v;
    }
    int e = s.at + (s.spread ? (int)r.below(2 * s.spread + 1) - s.spread : 0);
    e = clampe(e, E);
    if (K == 1 && e == 0) e = r.below(8) ? 1 : 0;
    if (K && e == (1 << E) - 1) e--;
    return mkv(1, s.neg == 0 ? 0 : s.neg == 1 ? 1 : (int)r.coin(), e, r.below(3) ? frac_pattern(r, F) : frac_tz(r, F, r.below(F + 1)));
}
template<class T> inline std::vector<V> kvals(Rng &r, int n, bool product, int K = Ty<T>::K) {
    Style s = style(r, Ty<T>::E, Ty<T>::F, product);
    std::vector<V> v;
    for (int i = 0; i < n; i++) v.push_back(kval(r, Ty<T>::E, Ty<T>::F, K, s, v));
    return v;
}
inline void put_vals(const std::vector<V> &v, int K) {
    out.line += '[';
    for (size_t i = 0; i < v.size(); i++) { if (i) out.sep(); if (K) put_enc(v[i]); else out.val(v[i]); }
    out.line += ']';
}
template<class T> inline std::string tyj() { return tyj(Ty<T>::K, Ty<T>::E, Ty<T>::F); }
template<class T> inline std::vector<T> ins(const std::vector<V> &v) { std::vector<T> x; for (size_t i = 0; i < v.size(); i++) x.push_back(Ty<T>::in(v[i])); return x; }
inline void put_stop(int rc) { out.line += '['; out.num(9); out.sep(); out.num(rc); out.line += ']'; }

// f(n, xs) -> T
template<class T, class FN> inline void k_sum(const char *op, const char *v, FN f, uint64_t seed, int runs, int step, bool even_only) {
    Rng r(hash_str(v) ^ hash_str(op) ^ (seed * 77777ull) ^ (Ty<T>::E * 1000 + Ty<T>::F));
    out.group(khead(op, v, tyj<T>(), tyj<T>(), tyj<T>(), tyj<T>(), tyj<T>(), 0)); (void)even_only;
    for (int i = 0; i < runs; i++) {
        int n = i < 8 ? i * step : step * (int)r.below(12 / step + 1);
        std::vector<V> xs = kvals<T>(r, n, false);
        std::vector<T> x = ins<T>(xs);
        T y = T();
        x.push_back(y);          // never an empty array
        volatile int rc = guarded([&]() { y = f(n, &x[0]); });
        out.begin_case(); put_vals(xs, Ty<T>::K); out.sep();
        if (rc) put_stop(rc); else Ty<T>::put(y);
        out.end_case();
    }
}
template<class T, class FN> inline void k_dot(const char *op, const char *v, FN f, uint64_t seed, int runs, int step) {
    Rng r(hash_str(v) ^ hash_str(op) ^ (seed * 77777ull) ^ (Ty<T>::E * 1000 + Ty<T>::F));
    out.group(khead(op, v, tyj<T>(), tyj<T>(), tyj<T>(), tyj<T>(), tyj<T>(), 0));
    for (int i = 0; i < runs; i++) {
        int n = i < 8 ? i * step : step * (int)r.below(12 / step + 1);
        std::vector<V> xs = kvals<T>(r, n, true), ys = kvals<T>(r, n, true);
        std::vector<T> x = ins<T>(xs), z = ins<T>(ys);
        T y = T();
        x.push_back(y); z.push_back(y);
        volatile int rc = guarded([&]() { y = f(n, &x[0], &z[0]); });
        out.begin_case(); put_vals(xs, Ty<T>::K); out.sep(); put_vals(ys, Ty<T>::K); out.sep();
        if (rc) put_stop(rc); else Ty<T>::put(y);
        out.end_case();
    }
}
// f(a, b, c, d) -> T
template<class T, class FN> inline void k_four(const char *op, const char *v, FN f, uint64_t seed, int runs) {
    Rng r(hash_str(v) ^ hash_str(op) ^ (seed * 77777ull) ^ (Ty<T>::E * 1000 + Ty<T>::F));
    out.group(khead(op, v, tyj<T>(), tyj<T>(), tyj<T>(), tyj<T>(), tyj<T>(), 4));
    for (int i = 0; i < runs; i++) {
        std::vector<V> xs = kvals<T>(r, 4, false);
        std::vector<T> x = ins<T>(xs);
        T y = T();
        volatile int rc = guarded([&]() { y = f(x[0], x[1], x[2], x[3]); });
        out.begin_case(); put_vals(xs, Ty<T>::K); out.sep();
        if (rc) put_stop(rc); else Ty<T>::put(y);
        out.end_case();
    }
}
template<class T> inline void put_all(const std::vector<T> &z, int n) {
    out.line += '[';
    for (int i = 0; i < n; i++) { if (i) out.sep(); Ty<T>::put(z[i]); }
    out.line += ']';
}
// f(n, xs, ys, rs): square matrices
template<class T, class FN> inline void k_mmm(const char *op, const char *v, FN f, uint64_t seed, int runs, int step, int top) {
    Rng r(hash_str(v) ^ hash_str(op) ^ (seed * 77777ull) ^ (Ty<T>::E * 1000 + Ty<T>::F));
    for (int i = 0; i < runs; i++) {
        int n = step * (int)r.below(top / step + 1);
        out.group(khead(op, v, tyj<T>(), tyj<T>(), tyj<T>(), tyj<T>(), tyj<T>(), n));
        std::vector<V> xs = kvals<T>(r, n * n, true), ys = kvals<T>(r, n * n, true);
        std::vector<T> x = ins<T>(xs), y = ins<T>(ys);
        x.push_back(T()); y.push_back(T());
        std::vector<T> z(n * n + 1);
        volatile int rc = guarded([&]() { f(n, &x[0], &y[0], &z[0]); });
        out.begin_case(); put_vals(xs, Ty<T>::K); out.sep(); put_vals(ys, Ty<T>::K); out.sep();
        if (rc) { out.line += "["; put_stop(rc); out.line += "]"; } else put_all(z, n * n);
        out.end_case();
    }
}
// the fixed shapes of the benchmarks; TM is the type products are stored in
template<class TA, class TL, class TR, class FN>
inline void k_par4(const char *v, const std::string &tm, FN f, uint64_t seed, int runs) {
    Rng r(hash_str(v) ^ (seed * 77777ull));
    out.group(khead("dot4", v, tyj<TA>(), tm, tyj<TL>(), tyj<TR>(), tyj<TA>(), 4));
    for (int i = 0; i < runs; i++) {
        std::vector<V> xs = kvals<TL>(r, 4, true), ys = kvals<TR>(r, 4, true);
        std::vector<TL> x = ins<TL>(xs);
        std::vector<TR> y = ins<TR>(ys);
        TA z = TA();
        volatile int rc = guarded([&]() { z = f(x[0], y[0], x[1], y[1], x[2], y[2], x[3], y[3]); });
        out.begin_case(); put_vals(xs, Ty<TL>::K); out.sep(); put_vals(ys, Ty<TR>::K); out.sep();
        if (rc) put_stop(rc); else Ty<TA>::put(z);
        out.end_case();
    }
}
template<class TA, class TL, class TR, class FN>
inline void k_mat16(const char *v, const std::string &tm, FN f, uint64_t seed, int runs) {
    Rng r(hash_str(v) ^ (seed * 77777ull));
    out.group(khead("matmul", v, tyj<TA>(), tm, tyj<TL>(), tyj<TR>(), tyj<TA>(), 16));
    static TL x[16][16]; static TR y[16][16]; static TA z[16][16];
    for (int i = 0; i < runs; i++) {
        // every row and every column has its own style; mostly sparse beyond that
        std::vector<V> xs, ys(256);
        for (int k = 0; k < 16; k++) { std::vector<V> a = kvals<TL>(r, 16, true); xs.insert(xs.end(), a.begin(), a.end()); }
        for (int k = 0; k < 16; k++) { std::vector<V> b = kvals<TR>(r, 16, true); for (int j = 0; j < 16; j++) ys[16 * j + k] = b[j]; }
        for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) { x[a][b] = Ty<TL>::in(xs[16 * a + b]); y[a][b] = Ty<TR>::in(ys[16 * a + b]); }
        volatile int rc = guarded([&]() { f(x, y, z); });
        out.begin_case(); put_vals(xs, Ty<TL>::K); out.sep(); put_vals(ys, Ty<TR>::K); out.sep();
        if (rc) { out.line += "["; put_stop(rc); out.line += "]"; }
        else { std::vector<TA> w; for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) w.push_back(z[a][b]); put_all(w, 256); }
        out.end_case();
        out.flush();
    }
}
// ---- sums of words
template<int W, int N, class FN> inline void k_words(const char *v, FN f, uint64_t seed, int runs) {
    Rng r(hash_str(v) ^ (seed * 77777ull));
    out.group(std::string("\"op\":\"words\",\"v\":\"") + v + "\",\"w\":" + S(W) + ",\"n\":" + S(N));
    for (int i = 0; i < runs; i++) {
        u128 a[N], y = 0;
        for (int k = 0; k < N; k++) a[k] = i == 0 ? 0 : i == 1 ? mask128(W) : r.coin() ? r.bits(W) : frac_pattern(r, W);
        volatile int rc = guarded([&]() { y = f(a); });
        out.begin_case(); out.line += '[';
        for (int k = 0; k < N; k++) { if (k) out.sep(); out.nat(a[k]); }
        out.line += "],";
        if (rc) { out.line += "[9,9,9,9,9]"; } else out.nat(y);
        out.end_case();
    }
}
#endif
