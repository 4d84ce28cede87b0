// Conversions between the recorded values and the library's flopoco values.
#ifndef verif_fp_hpp
#define verif_fp_hpp
#include "trace.hpp"
#include "thls/tops/fp_flopoco.hpp"

template<int W>
inline thls::fw_uint<W> to_fw(u128 x) {
    typedef typename thls::fw_uint<W>::bits_t bits_t;
    return thls::fw_uint<W>::from_bits((bits_t)(x & mask128(W)));
}
template<int W>
inline u128 from_fw(const thls::fw_uint<W> &x) { return (u128)x.bits & mask128(W); }

template<int E, int F>
inline thls::fp_flopoco<E, F> to_fp(const V &v) {
    return thls::fp_flopoco<E, F>(to_fw<2>(v.c), to_fw<1>(v.s), to_fw<E>(v.e), to_fw<F>(v.f));
}
template<int E, int F>
inline V from_fp(const thls::fp_flopoco<E, F> &x) {
    u128 b = from_fw<E + F + 3>(x.bits);
    return mkv((int)(b >> (E + F + 1)), (int)(b >> (E + F)) & 1, (int)(b >> F) & ((1 << E) - 1), b & mask128(F));
}

typedef V (*fn2)(const V &, const V &);
typedef V (*fn1)(const V &);

// Diagnostics on, with nowhere to go.
inline int dbg() {
    static int k = 0;
    if (!k) { k = 1; std::cerr.setstate(std::ios::failbit); if (!freopen("/dev/null", "w", stderr)) k = 1; }
    return k;
}

struct Case2 { V x, y; };

inline V call2(fn2 f, const V &x, const V &y) {
    V r = mkv(9, 0, 0, 0);
    volatile int rc = guarded([&]() { r = f(x, y); });
    if (rc) r = mkv(9, rc, 0, 0);
    return r;
}
inline V call1(fn1 f, const V &x) {
    V r = mkv(9, 0, 0, 0);
    volatile int rc = guarded([&]() { r = f(x); });
    if (rc) r = mkv(9, rc, 0, 0);
    return r;
}

struct Bin {       // a binary operation being recorded
    const char *op, *v;
    int ex, fx, ey, fy, er, fr;
    fn2 f;
    int enc;       // operands and result are IEEE encodings
};
inline void put_enc(const V &v) {
    out.line += '['; out.num(v.s); out.line += ','; out.num(v.e); out.line += ','; out.nat(v.f); out.line += ']';
}
inline std::string binhead(const Bin &b) {
    return std::string("\"op\":\"") + b.op + "\",\"v\":\"" + b.v + "\",\"fx\":" + fmtj(b.ex, b.fx) +
           ",\"fy\":" + fmtj(b.ey, b.fy) + ",\"fr\":" + fmtj(b.er, b.fr);
}
inline void rec2(const Bin &b, const V &x, const V &y) {
    V r = call2(b.f, x, y);
    if (b.enc) {
        out.begin_case(); put_enc(x); out.sep(); put_enc(y); out.sep();
        if (r.c == 9) out.line += "[9,9,[]]"; else put_enc(r);
        out.end_case();
        return;
    }
    out.begin_case(); out.val(x); out.sep(); out.val(y); out.sep(); out.val(r); out.end_case();
}
inline uint64_t bin_seed(const Bin &b, uint64_t seed) {
    return hash_str((binhead(b)).c_str()) ^ (seed * 77777ull);
}
#endif
