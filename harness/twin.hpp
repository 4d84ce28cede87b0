// Several copies of a register file running one program, recorded after every step.
#ifndef verif_twin_hpp
#define verif_twin_hpp
#include "machine.hpp"

// ---- setting the unspecified bits of a register, in a way that depends on the copy:
// all zeros, all ones, anything
inline V blurred(Rng &r, int copy, V v, int E, int F) {
    if (v.c != 1) {
        int m = copy == 0 ? 0 : copy == 1 ? 1 : 2 + (int)r.below(2);
        u128 f = m == 0 ? 0 : m == 1 ? mask128(F) : r.bits(F);
        int e = m == 0 ? 0 : m == 1 ? (1 << E) - 1 : m == 2 ? exp_pattern(r, E) : (int)r.below(1u << E);
        int s = m == 0 ? 0 : m == 1 ? 1 : r.coin();
        v = mkv(v.c, v.c == 3 ? s : v.s, clampe(e, E), f);
    }
    return v;
}
inline V blurred_ie(Rng &r, int copy, V v, int E, int F) {
    if (v.e == (1 << E) - 1 && v.f != 0) {
        u128 f = copy == 0 ? (u128)1 << (F - 1) : copy == 1 ? mask128(F) : r.bits(F);
        if (f == 0) f = 1;
        v = mkv(1, copy == 0 ? 0 : copy == 1 ? 1 : r.coin(), v.e, f);
    }
    return v;
}
template<int E, int F> inline void blur(Rng &r, int c, thls::fp_flopoco<E, F> &x) { x = to_fp<E, F>(blurred(r, c, from_fp(x), E, F)); }
template<int E, int F> inline void blur(Rng &r, int c, thls::fp_ieee<E, F> &x) { x = to_ie<E, F>(blurred_ie(r, c, from_ie(x), E, F)); }
inline void blur(Rng &r, int c, double &d) {
    uint64_t b; memcpy(&b, &d, 8);
    V v = blurred_ie(r, c, mkv(1, (int)(b >> 63), (int)(b >> 52) & 2047, b & mask128(52)), 11, 52);
    if (v.e == 2047 && v.f) v.f |= (u128)1 << 51;             // quiet: moving it around must not change it
    b = ((uint64_t)v.s << 63) | ((uint64_t)v.e << 52) | (uint64_t)v.f; memcpy(&d, &b, 8);
}
inline void blur(Rng &, int, Flag &) { }

// ---- filling: half of the values are specials
inline V twin_value(Rng &r, int E, int F) {
    static const int cl[] = {0, 0, 2, 3};
    if (r.coin()) return mkv(cl[r.below(4)], r.coin(), 0, 0);
    return mach_value(r, E, F);
}
template<int E, int F> inline void fill2(Rng &r, thls::fp_flopoco<E, F> &x) { x = to_fp<E, F>(twin_value(r, E, F)); }
template<int E, int F> inline void fill2(Rng &r, thls::fp_ieee<E, F> &x) {
    V v = mach_ie(r, E, F);
    if (r.below(3) == 0) { v.e = (1 << E) - 1; if (r.coin()) v.f = 0; }
    x = to_ie<E, F>(v);
}
inline void fill2(Rng &r, double &d) { fill(r, d); if (r.below(4) == 0) d = r.coin() ? 0.0 : r.coin() ? 1.0 / 0.0 : 0.0 / 0.0; }
inline void fill2(Rng &r, Flag &x) { fill(r, x); }

template<class R> struct TIns { const char *head; int kind; void (R::*f)(Rng &, int); };   // kind 0 load, 1 blur, 2 operation

template<class R>
inline void dump_all(R *x, int n) {
    out.line += '[';
    for (int c = 0; c < n; c++) { if (c) out.line += ','; x[c].dump(); }
    out.line += ']';
}
template<class R>
inline void twins(const char *name, const char *types, const TIns<R> *tab, int nt, int nload, uint64_t seed, int runs, int len) {
    const int N = 3;
    static R x[N];
    Rng r(hash_str(name) ^ (seed * 77777ull));
    for (int k = 0; k < runs; k++) {
        x[0].load(r);
        for (int c = 1; c < N; c++) x[c] = x[0];
        for (int c = 0; c < N; c++) x[c].blur_all(r, c);
        out.line = std::string("{\"v\":\"") + name + "\",\"types\":" + types + ",\"init\":";
        dump_all(x, N);
        out.line += ",\"steps\":[";
        bool dead = false;
        for (int i = 0; i < len && !dead; i++) {
            int q = r.below(3) == 0 ? (int)r.below(nload) : nload + (int)r.below(nt - nload);    // loads and blurs come first
            volatile int rc = 0;
            if (tab[q].kind == 0) {
                Rng s = r;                               // the same value, then blurred, in every copy
                for (int c = 0; c < N; c++) { Rng t = s; (x[c].*tab[q].f)(t, c); r = t; }
                r.bits(32);
            } else {
                for (int c = 0; c < N && !rc; c++) rc = guarded([&]() { (x[c].*tab[q].f)(r, c); });
            }
            if (i) out.line += ',';
            out.line += tab[q].head;
            out.line += ",\"regs\":";
            if (rc) { out.line += "[9]"; dead = true; } else dump_all(x, N);
            out.line += '}';
            out.cases++;
        }
        out.line += "]}";
        std::string s = out.line;
        out.cases--;
        out.raw(s);
    }
}
#endif
