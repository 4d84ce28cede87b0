// Case generators for the arithmetic operations.  They only choose operands;
// what the result should be is the specification's business.
#ifndef verif_gens_hpp
#define verif_gens_hpp
#include "fp.hpp"

// All pairs, when a format is small enough.
inline bool gen_exhaustive2(const Bin &b, Rng &r, long limit) {
    if (b.ex + b.fx > 12 || b.ey + b.fy > 12) return false;
    std::vector<V> xs = all_values(r, b.ex, b.fx), ys = all_values(r, b.ey, b.fy);
    if ((long)xs.size() * (long)ys.size() > limit) return false;
    for (size_t i = 0; i < xs.size(); i++)
        for (size_t j = 0; j < ys.size(); j++) rec2(b, xs[i], ys[j]);
    return true;
}
// Special values against special values and landmarks, in both orders.
inline void gen_specials2(const Bin &b, Rng &r, int stride) {
    std::vector<V> sx = specials(r, b.ex, b.fx), sy = specials(r, b.ey, b.fy);
    std::vector<V> lx = landmarks(r, b.ex, b.fx), ly = landmarks(r, b.ey, b.fy);
    for (size_t i = 0; i < sx.size(); i++)
        for (size_t j = 0; j < sy.size(); j++) rec2(b, sx[i], sy[j]);
    for (size_t i = 0; i < sx.size(); i++)
        for (size_t j = r.below(stride); j < ly.size(); j += stride) rec2(b, sx[i], ly[j]);
    for (size_t i = r.below(stride); i < lx.size(); i += stride)
        for (size_t j = 0; j < sy.size(); j++) rec2(b, lx[i], sy[j]);
    for (size_t i = 0; i < lx.size(); i++)
        for (size_t j = r.below(stride); j < ly.size(); j += stride) rec2(b, lx[i], ly[j]);
}

// ------------------------------------------------------------ multiplication
// Inverse of odd x modulo 2^k.
inline u128 inv_mod(u128 x, int k) {
    u128 y = 1;
    for (int i = 0; i < 8; i++) y *= 2 - x * y;
    return y & mask128(k);
}
inline void pick_exps_mul(const Bin &b, Rng &r, int &e1, int &e2) {
    int topx = (1 << b.ex) - 1, topr = (1 << b.er) - 1;
    int biasx = (1 << (b.ex - 1)) - 1, biasy = (1 << (b.ey - 1)) - 1, biasr = (1 << (b.er - 1)) - 1;
    int off = biasx + biasy - biasr;           // exponent fields add up to off plus the field of the product
    switch (r.below(6)) {
    case 0: {  // exponent sum around the underflow boundary
        int t = off - 3 + (int)r.below(5);
        e1 = r.below(clampe(t, b.ex) + 1); e2 = t - e1; break; }
    case 1: {  // around the overflow boundary
        int t = topr + off - 3 + (int)r.below(5);
        e1 = b.ex == b.er ? biasx - 2 + (int)r.below(topx - biasx + 3) : (int)r.below(topx + 1); e2 = t - e1; break; }
    case 2: e1 = exp_pattern(r, b.ex); e2 = exp_pattern(r, b.ey); break;
    default: e1 = biasx + (int)r.below(biasx + 2) - biasx / 2; e2 = biasy + (int)r.below(9) - 4; break;
    }
    e1 = clampe(e1, b.ex); e2 = clampe(e2, b.ey);
}
inline u128 div_ceil_shift(int sh, u128 d, u128 x) { // floor((2^sh - d) / x), sh up to 250
    // long division on 256 bits, x < 2^127
    u128 q = 0, rem = 0;
    // 2^sh - d in binary: bits from sh-1 downwards (d small)
    for (int i = sh - 1; i >= 0; i--) {
        int bit;
        if (i >= 127) bit = 1; else bit = (int)(((((u128)1) << 127) - d) >> i) & 1;
        if (sh < 127) bit = (int)((((((u128)1) << sh) - d) >> i) & 1);
        rem = (rem << 1) | bit;
        q <<= 1;
        if (rem >= x) { rem -= x; q |= 1; }
    }
    return q;
}
inline void gen_mul(const Bin &b, Rng &r, long n) {
    for (long i = 0; i < n; i++) {
        int e1, e2;
        pick_exps_mul(b, r, e1, e2);
        u128 f1, f2;
        int drop = b.fx + b.fy - b.fr;       // low bits dropped when the product is below two
        switch (r.below(8)) {
        case 0: case 1: {                    // ties: lowest set bit of the product just below the kept bits
            int t = drop - 1 + (int)r.below(2);
            if (t < 0) t = 0;
            int lo = t - b.fy < 0 ? 0 : t - b.fy, hi = t < b.fx ? t : b.fx;
            int t1 = hi >= lo ? lo + (int)r.below(hi - lo + 1) : 0;
            f1 = frac_tz(r, b.fx, t1);
            f2 = frac_tz(r, b.fy, t - t1 < 0 ? 0 : t - t1);
            break; }
        case 2: case 3: {                    // one unit beside a tie, or just above/below exact
            int k = drop + (int)r.below(2);
            if (k < 1) k = 1;
            if (k > b.fy) k = b.fy;
            f1 = (r.coin() ? frac_pattern(r, b.fx) : r.bits(b.fx));
            if (b.fx > 0) f1 |= 1;
            u128 s1 = f1 | ((u128)1 << b.fx);
            u128 want = (((u128)1 << (k > 0 ? k - 1 : 0)) + (u128)r.below(3) - 1);
            if (r.below(4) == 0) want = (u128)r.below(3) - 1;
            f2 = b.fx > 0 ? (inv_mod(s1, 127) * want) & mask128(k) : r.bits(b.fy);
            f2 |= r.bits(b.fy) & ~mask128(k) & mask128(b.fy);
            break; }
        case 4: {                            // product just below a power of two (rounding carries)
            f1 = r.coin() ? frac_pattern(r, b.fx) : r.bits(b.fx);
            u128 s1 = f1 | ((u128)1 << b.fx);
            u128 q = div_ceil_shift(b.fx + b.fy + 1, 1 + r.below(3), s1);
            q -= r.below(2);
            f2 = q & mask128(b.fy);
            break; }
        default: f1 = frac_pattern(r, b.fx); f2 = frac_pattern(r, b.fy);
        }
        V x = mkv(1, r.coin(), e1, f1), y = mkv(1, r.coin(), e2, f2);
        if (r.below(24) == 0) x = any_value(r, b.ex, b.fx);
        if (r.below(24) == 0) y = any_value(r, b.ey, b.fy);
        rec2(b, x, y);
    }
}

// ------------------------------------------------------------------ addition
inline void gen_add(const Bin &b, Rng &r, long n) {
    int topx = (1 << b.ex) - 1, topy = (1 << b.ey) - 1;
    int dbias = (1 << (b.ey - 1)) - (1 << (b.ex - 1));   // y field for the same exponent as x field
    int span = (b.fx > b.fy ? b.fx : b.fy) + 6;
    for (long i = 0; i < n; i++) {
        int d = (int)(i % (2 * span + 1)) - span;        // every exponent difference in turn
        if (r.below(3) == 0) d = (int)r.below(5) - 2;
        int e1;
        switch (r.below(4)) {
        case 0: e1 = r.below(b.fx + 4 < topx ? b.fx + 4 : topx + 1); break;   // near the bottom
        case 1: e1 = topx - (int)r.below(3); break;                          // near the top
        default: e1 = r.below(topx + 1);
        }
        if (r.below(40) == 0) d = (int)r.below(topx + topy + 1) - topy;
        e1 = clampe(e1, b.ex);
        int e2 = e1 + dbias - d;
        if (e2 < 0 || e2 > topy) { e2 = clampe(e2, b.ey); e1 = e2 - dbias + d; e1 = clampe(e1, b.ex); }
        u128 f1 = frac_pattern(r, b.fx), f2 = frac_pattern(r, b.fy);
        int s1 = r.coin(), s2 = r.coin();
        switch (r.below(8)) {
        case 0: case 1: {   // tie: lowest bit of the smaller operand half an ulp below the larger
            if (d >= 0) {
                int t = d - 1 - (b.fr - b.fy);          // position in y of half an ulp of x's exponent
                t += (int)r.below(3) - 1;
                if (t >= 0 && t <= b.fy) f2 = frac_tz(r, b.fy, t);
                if (r.below(3) == 0) f1 = r.coin() ? 0 : mask128(b.fx);
            } else {
                int t = -d - 1 - (b.fr - b.fx) + (int)r.below(3) - 1;
                if (t >= 0 && t <= b.fx) f1 = frac_tz(r, b.fx, t);
                if (r.below(3) == 0) f2 = r.coin() ? 0 : mask128(b.fy);
            }
            break; }
        case 2: {           // cancellation: nearly equal magnitudes
            s2 = 1 - s1;
            e2 = clampe(e1 + dbias + (int)r.below(3) - 1, b.ey);
            u128 same = b.fy >= b.fx ? f1 << (b.fy - b.fx) : f1 >> (b.fx - b.fy);
            u128 delta = (u128)1 << r.below(b.fy + 1);
            f2 = r.coin() ? (same + delta) & mask128(b.fy) : (same - delta) & mask128(b.fy);
            if (r.below(3) == 0) f2 = same;
            break; }
        case 3:             // far smaller operand of either sign: only the sticky matters
            f2 = r.coin() ? 0 : frac_pattern(r, b.fy);
            f1 = r.coin() ? 0 : r.coin() ? mask128(b.fx) : frac_pattern(r, b.fx);
            break;
        default: break;
        }
        V x = mkv(1, s1, e1, f1), y = mkv(1, s2, e2, f2);
        if (r.below(24) == 0) x = any_value(r, b.ex, b.fx);
        if (r.below(24) == 0) y = any_value(r, b.ey, b.fy);
        rec2(b, x, y);
    }
}

// ------------------------------------------------------------------ division
// High part of a product: (a*b) >> k for a,b < 2^128 and a*b>>k < 2^128.
inline u128 mul_shr(u128 a, u128 b, int k, bool &exact) {
    uint64_t al = (uint64_t)a, ah = (uint64_t)(a >> 64), bl = (uint64_t)b, bh = (uint64_t)(b >> 64);
    u128 ll = (u128)al * bl, lh = (u128)al * bh, hl = (u128)ah * bl, hh = (u128)ah * bh;
    u128 mid = (ll >> 64) + (uint64_t)lh + (uint64_t)hl;
    u128 lo = (mid << 64) | (uint64_t)ll;
    u128 hi = hh + (lh >> 64) + (hl >> 64) + (mid >> 64);
    exact = k >= 128 ? (lo == 0 && (hi & mask128(k - 128)) == 0) : (lo & mask128(k)) == 0;
    if (k == 0) return lo;
    if (k >= 128) return hi >> (k - 128);
    return (lo >> k) | (hi << (128 - k));
}
inline int bitlen(u128 x) { int n = 0; while (x) { n++; x >>= 1; } return n; }
inline void gen_div(const Bin &b, Rng &r, long n) {
    int topx = (1 << b.ex) - 1, topy = (1 << b.ey) - 1;
    int biasx = (1 << (b.ex - 1)) - 1, biasy = (1 << (b.ey - 1)) - 1, biasr = (1 << (b.er - 1)) - 1;
    for (long i = 0; i < n; i++) {
        int e1, e2;
        switch (r.below(5)) {
        case 0: { // quotient exponent around the underflow boundary
            int t = -biasr + (int)r.below(4) - 1;
            e2 = r.below(topy + 1); e1 = t + (e2 - biasy) + biasx; break; }
        case 1: { // around the overflow boundary
            int t = ((1 << b.er) - 1 - biasr) + (int)r.below(4) - 2;
            e2 = r.below(topy + 1); e1 = t + (e2 - biasy) + biasx; break; }
        case 2: e1 = exp_pattern(r, b.ex); e2 = exp_pattern(r, b.ey); break;
        default: e1 = biasx + (int)r.below(9) - 4; e2 = biasy + (int)r.below(9) - 4;
        }
        e1 = clampe(e1, b.ex); e2 = clampe(e2, b.ey);
        u128 f1, f2;
        f2 = frac_pattern(r, b.fy);
        f1 = frac_pattern(r, b.fx);
        int mode = r.below(8);
        if (mode < 5) {
            // a near q*b for a chosen quotient q: midpoints (odd in the bit below
            // the last), representable values, and short quotients
            u128 s2 = f2 | ((u128)1 << b.fy);
            if (r.coin()) { f2 = r.bits(b.fy); s2 = f2 | ((u128)1 << b.fy); }
            int qb = b.fr + 2;                      // bits of q, with one below the last place
            if (mode == 4) qb = 1 + r.below(b.fr + 2);
            u128 q = r.bits(qb) | ((u128)1 << (qb - 1));
            if (mode < 3) q |= 1;                   // a midpoint
            if (mode == 1) q = (u128)1 << (qb - 1) | 1;
            if (mode == 2 && r.coin()) q = mask128(qb);
            int pb = qb + b.fy + 1;                 // bits of the product, or one less
            int k = pb - (b.fx + 1);
            bool ex;
            u128 a;
            if (k >= 0) {
                a = mul_shr(q, s2, k, ex);
                if (bitlen(a) < b.fx + 1 && k > 0) a = mul_shr(q, s2, k - 1, ex);
            } else {
                a = mul_shr(q, s2, 0, ex);
                while (bitlen(a) < b.fx + 1) a <<= 1;
            }
            if (!ex || mode == 3) a += (u128)r.below(3) - 1;
            f1 = a & mask128(b.fx);
        } else if (mode == 5) {                     // nearly equal operands
            u128 same = b.fy >= b.fx ? f2 >> (b.fy - b.fx) : f2 << (b.fx - b.fy);
            f1 = (same + (u128)r.below(5) - 2) & mask128(b.fx);
        } else if (mode == 6) {
            f1 = r.bits(b.fx); f2 = r.bits(b.fy);
        }
        V x = mkv(1, r.coin(), e1, f1), y = mkv(1, r.coin(), e2, f2);
        if (r.below(24) == 0) x = any_value(r, b.ex, b.fx);
        if (r.below(24) == 0) y = any_value(r, b.ey, b.fy);
        rec2(b, x, y);
    }
}

// ------------------------------------------------------------- one operation
typedef void (*gen2)(const Bin &, Rng &, long);
// Records one operation in one combination of formats: exhaustively when small,
// otherwise specials, landmarks and n generated cases.
inline void run_bin(const Bin &b, uint64_t seed, long n, gen2 g) {
    Rng r(bin_seed(b, seed));
    out.group(binhead(b));
    if (gen_exhaustive2(b, r, 12000)) return;
    gen_specials2(b, r, 7);
    g(b, r, n);
}
// ------------------------------------------------------------ unary operations
struct Un {
    const char *op, *v;
    int ex, fx, er, fr;
    fn1 f;
};
inline std::string unhead(const Un &b) {
    return std::string("\"op\":\"") + b.op + "\",\"v\":\"" + b.v + "\",\"fx\":" + fmtj(b.ex, b.fx) +
           ",\"fr\":" + fmtj(b.er, b.fr);
}
inline void rec1(const Un &b, const V &x) {
    V r = call1(b.f, x);
    out.begin_case(); out.val(x); out.sep(); out.val(r); out.end_case();
}
// All values when the format has at most 2^12; otherwise specials, landmarks,
// and n values whose fractions have the bits around the rounding position set
// in every way, at exponents where the result leaves the range.
inline void run_un(const Un &b, uint64_t seed, long n) {
    Rng r(hash_str(unhead(b).c_str()) ^ (seed * 77777ull));
    out.group(unhead(b));
    std::vector<V> s = specials(r, b.ex, b.fx), l = landmarks(r, b.ex, b.fx);
    for (size_t i = 0; i < s.size(); i++) rec1(b, s[i]);
    if (b.ex + b.fx <= 12) {
        std::vector<V> a = all_values(r, b.ex, b.fx);
        for (size_t i = 0; i < a.size(); i++) rec1(b, a[i]);
        return;
    }
    for (size_t i = 0; i < l.size(); i++) rec1(b, l[i]);
    int topx = (1 << b.ex) - 1;
    int d = (1 << (b.er - 1)) - (1 << (b.ex - 1));      // result field minus source field, for conversions
    int topr = (1 << b.er) - 1;
    for (long i = 0; i < n; i++) {
        int e;
        switch (r.below(5)) {
        case 0: e = -d + (int)r.below(5) - 2; break;            // bottom of the target's range
        case 1: e = topr - d + (int)r.below(5) - 2; break;      // top of the target's range
        case 2: e = exp_pattern(r, b.ex); break;
        case 3: e = r.coin() ? (int)r.below(4) : topx - (int)r.below(4); break;
        default: e = r.below(topx + 1);
        }
        u128 f;
        int drop = b.fx - b.fr;
        switch (r.below(4)) {
        case 0: f = drop >= 1 ? frac_tz(r, b.fx, drop - (int)r.below(2)) : frac_pattern(r, b.fx); break;
        case 1: {
            f = frac_pattern(r, b.fx);
            if (drop >= 1) f = ((r.coin() ? f : mask128(b.fx)) & ~mask128(drop)) |
                               ((((u128)1 << (drop - 1)) + (u128)r.below(3) - 1) & mask128(drop));
            break; }
        default: f = frac_pattern(r, b.fx);
        }
        rec1(b, mkv(1, r.coin(), clampe(e, b.ex), f));
    }
}
#endif
