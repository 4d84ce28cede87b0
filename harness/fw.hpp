// Recording of the fixed-width unsigned operations.
#ifndef verif_fw_hpp
#define verif_fw_hpp
#include "trace.hpp"
#include "thls/tops/fw_uint.hpp"

template<int W> using F = thls::fw_uint<W>;

template<int W> inline F<W> mk(u128 x) {
    typedef typename F<W>::bits_t bits_t;
    return F<W>::from_bits((bits_t)(x & mask128(W)));
}
template<int W> inline u128 raw(const F<W> &x) { return (u128)x.bits; }

inline void put_nat(std::string &o, u128 x) {
    o += '[';
    bool first = true;
    while (x) { if (!first) o += ','; first = false; o += S((long)(x & 32767)); x >>= 15; }
    o += ']';
}
template<int W> inline void put(std::string &o, const F<W> &x) { put_nat(o, raw(x)); }
inline void put_text(std::string &o, const std::string &t) {
    o += '[';
    for (size_t i = 0; i < t.size(); i++) { if (i) o += ','; o += S((unsigned char)t[i]); }
    o += ']';
}

// An operation: k operands of widths ws, perhaps a plain integer; f computes
// it, appends the result to o and tells whether the operands were left alone.
enum { I_NONE, I_ANY, I_NONNEG, I_FIT, I_SHIFT };
typedef bool (*opfn)(const u128 *a, int n, std::string &o);
struct Op {
    std::string op, p;
    std::vector<int> ws;
    int w, ints;
    opfn f;
};
static std::vector<Op> ops;
inline void reg(const char *op, int w, std::vector<int> ws, const std::string &p, int ints, opfn f) {
    Op o; o.op = op; o.p = p; o.ws = ws; o.w = w; o.ints = ints; o.f = f; ops.push_back(o);
}

// Three macros: the expression sees the operands as x, y, z (and n).  The
// result type is part of the check: F<W> cannot be built from another width.
#define OP1(name, RW, W1, P, INTS, E) reg(name, RW, {W1}, P, INTS, [](const u128 *a, int n, std::string &o) -> bool { \
    (void)n; F<W1> x = mk<W1>(a[0]); F<RW> r = E; put(o, r); return raw(x) == a[0]; })
#define OP2(name, RW, W1, W2, P, INTS, E) reg(name, RW, {W1, W2}, P, INTS, [](const u128 *a, int n, std::string &o) -> bool { \
    (void)n; F<W1> x = mk<W1>(a[0]); F<W2> y = mk<W2>(a[1]); F<RW> r = E; put(o, r); return raw(x) == a[0] && raw(y) == a[1]; })
#define OP3(name, RW, W1, W2, W3, P, INTS, E) reg(name, RW, {W1, W2, W3}, P, INTS, [](const u128 *a, int n, std::string &o) -> bool { \
    (void)n; F<W1> x = mk<W1>(a[0]); F<W2> y = mk<W2>(a[1]); F<W3> z = mk<W3>(a[2]); F<RW> r = E; put(o, r); \
    return raw(x) == a[0] && raw(y) == a[1] && raw(z) == a[2]; })

inline std::string ophead(const Op &o) {
    std::string h = "\"op\":\"" + o.op + "\",\"v\":\"fw_uint\",\"w\":" + S(o.w) + ",\"ws\":[";
    for (size_t i = 0; i < o.ws.size(); i++) { if (i) h += ','; h += S(o.ws[i]); }
    return h + "],\"p\":[" + o.p + "]";
}
inline bool op_run(const Op &o, const u128 *a, int n, std::string &res) {
    bool same = true;
    res.clear();
    int rc = guarded([&]() { same = o.f(a, n, res); });
    if (rc) { res = rc == 1 ? "[-1]" : "[-2]"; same = true; }
    return same;
}
inline void op_case(const Op &o, const u128 *a, int n) {
    std::string res;
    bool same = op_run(o, a, n, res);
    out.begin_case();
    for (size_t i = 0; i < o.ws.size(); i++) { if (i) out.sep(); out.nat(a[i]); }
    if (o.ints) { if (!o.ws.empty()) out.sep(); out.num(n); }
    if (!o.ws.empty() || o.ints) out.sep();
    out.line += res; out.sep(); out.num(same ? 1 : 0);
    out.end_case();
}
inline int int_pattern(Rng &r, int ints, int w, u128 x) {
    int n = 0;
    switch (r.below(9)) {
    case 0: n = (int)r.below(4); break;
    case 1: n = 0x7fffffff - (int)r.below(3); break;
    case 2: n = (int)(r.next() >> 33); break;
    case 3: n = (1 << r.below(31)) - (int)r.below(2); break;
    case 4: n = (int)(mask128(w > 31 ? 31 : w)); break;
    case 5: n = (int)((mask128(w > 31 ? 31 : w)) - r.below(2)); break;
    case 6: n = (int)frac_pattern(r, 31); break;
    default: n = (int)(x & 0x7fffffff); if (r.coin() && n) n -= 1; else if (r.coin() && n < 0x7fffffff) n += 1;
    }
    if (ints == I_FIT) n = (int)(n & (long)mask128(w > 31 ? 31 : w));
    if (ints == I_SHIFT) n = w <= 0 ? 0 : r.below(4) == 0 ? w - 1 : (int)r.below(w);
    if (ints == I_ANY && r.coin()) n = -n;
    return n;
}
inline void op_go(const Op &o, uint64_t seed, long n) {
    std::string h = ophead(o);
    Rng r(hash_str(h.c_str()) ^ (seed * 77777ull));
    out.group(h);
    int tot = 0;
    for (size_t i = 0; i < o.ws.size(); i++) tot += o.ws[i];
    u128 a[16] = {0};
    if (tot <= 8 && (long)(1 << tot) <= 2 * n) {
        for (long v = 0; v < (1 << tot); v++) {
            long t = v;
            for (size_t i = 0; i < o.ws.size(); i++) { a[i] = t & mask128(o.ws[i]); t >>= o.ws[i]; }
            if (!o.ints) op_case(o, a, 0);
            else if (o.ints == I_SHIFT) { for (int s = 0; s < o.ws[0]; s++) op_case(o, a, s); }
            else for (int k = 0; k < 4; k++) op_case(o, a, int_pattern(r, o.ints, o.ws.empty() ? o.w : o.ws[0], a[0]));
        }
        return;
    }
    for (long i = 0; i < n; i++) {
        for (size_t k = 0; k < o.ws.size(); k++) {
            int w = o.ws[k];
            a[k] = frac_pattern(r, w);
            if (k > 0 && o.ws[k - 1] == w && r.coin()) {
                u128 b = a[k - 1];
                switch (r.below(7)) {
                case 0: a[k] = b; break;
                case 1: a[k] = b + 1; break;
                case 2: a[k] = b - 1; break;
                case 3: a[k] = ~b; break;
                case 4: a[k] = ~b + 1; break;
                case 5: a[k] = w ? b ^ ((u128)1 << r.below(w)) : 0; break;
                default: a[k] = b & r.bits(w);
                }
                a[k] &= mask128(w);
            }
        }
        op_case(o, a, o.ints ? int_pattern(r, o.ints, o.ws.empty() ? o.w : o.ws[0], a[0]) : 0);
    }
}
#endif
