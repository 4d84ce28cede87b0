// Recording of bit heaps and row heaps.
#ifndef verif_heaps_hpp
#define verif_heaps_hpp
#include <sstream>
#include "fw.hpp"

inline void put_mpz(std::string &o, mpz_t z) {
    if (mpz_sgn(z) < 0) { o += "[-1]"; return; }
    size_t n = 0;
    unsigned char b[64] = {0};
    if (mpz_sizeinbase(z, 2) > 128) { o += "[-3]"; return; }
    mpz_export(b, &n, -1, 1, -1, 0, z);
    u128 x = 0;
    for (size_t i = 0; i < n && i < 16; i++) x |= (u128)b[i] << (8 * i);
    put_nat(o, x);
}

#ifdef VERIF_BITS
#include "thls/tops/bit_heap.hpp"
#include "thls/tops/bit_heap_mul.hpp"
template<int H> inline std::string column(const F<H> &x) {
    int ones = 0;
    u128 b = raw(x);
    while (b) { ones += (int)(b & 1); b >>= 1; }
    return "[" + S(H) + "," + S(ones) + "]";
}
template<int H> inline void columns(std::string &o, const thls::bit_heap_root<H> &h) { o = column<H>(h.bits) + (o.empty() ? "" : ",") + o; }
template<int H, class L> inline void columns(std::string &o, const thls::bit_heap_link<H, L> &h) {
    // the least significant column comes first
    columns(o, h.lsbs);
    o += "," + column<H>(h.bits);
}
template<bool flat> struct Collapse { template<class T> static void put(std::string &o, const T &h) { put_nat(o, raw(thls::bit_heap_collapse(h))); } };
template<> struct Collapse<false> { template<class T> static void put(std::string &o, const T &) { o += "[-1]"; } };
template<class T> inline void text(std::string &o, const T &h) { std::stringstream s; s << h; put_text(o, s.str()); }
template<int H> inline void text(std::string &o, const thls::bit_heap_root<H> &) { o += "[]"; }   // roots have no text
template<class T> inline void obs(std::string &o, const T &h, bool txt) {
    std::string c;
    columns(c, h);
    if (o[o.size() - 1] != '[') o += ',';
    o += "[[" + c + "],";
    mpz_t z; mpz_init(z);
    thls::bit_heap_to_mpz(z, h); put_mpz(o, z); mpz_clear(z);
    o += ',';
    Collapse<(T::max_height <= 2)>::put(o, h);
    o += ',';
    if (txt) text(o, h); else o += "[]";
    o += ']';
}
#else
#include "thls/tops/row_heap.hpp"
template<int D> struct Collapse { template<class T> static void put(std::string &o, const T &) { o += "[-1]"; } };
template<> struct Collapse<2> { template<class T> static void put(std::string &o, const T &h) { put_nat(o, raw(thls::collapse(h))); } };
template<int W, int D> inline void obs(std::string &o, const thls::row_heap_holder<W, D> &h, bool) {
    if (o[o.size() - 1] != '[') o += ',';
    o += "[[" + S(thls::row_heap_holder<W, D>::width) + ",[";
    for (int i = 0; i < thls::row_heap_holder<W, D>::depth; i++) { if (i) o += ','; put_nat(o, raw(h.rows[i])); }
    o += "]],";
    mpz_t z; mpz_init(z);
    thls::row_heap_to_mpz(z, h); put_mpz(o, z); mpz_clear(z);
    o += ',';
    Collapse<D>::put(o, h);
    o += ']';
}
#endif

// A program: inputs of the given widths, f runs it and appends the observations.
struct Prog { const char *head; std::vector<int> ws; void (*f)(const u128 *a, std::string &o, bool txt); };
static std::vector<Prog> progs;
inline void prog_go(const Prog &p, uint64_t seed, long n) {
    Rng r(hash_str(p.head) ^ (seed * 77777ull));
    out.group(p.head);
    std::vector<u128> a(p.ws.size());
    int tot = 0;
    for (size_t i = 0; i < p.ws.size(); i++) tot += p.ws[i];
    bool all = tot <= 10 && (1l << tot) <= 4 * n;
    for (long k = 0; k < (all ? 1l << tot : n); k++) {
        long v = k;
        int how = r.below(6);
        for (size_t i = 0; i < a.size(); i++) {
            if (all) { a[i] = v & mask128(p.ws[i]); v >>= p.ws[i]; }
            else a[i] = how == 0 ? mask128(p.ws[i]) : how == 1 ? mask128(p.ws[i]) ^ (r.below(3) ? 0 : frac_pattern(r, p.ws[i])) : frac_pattern(r, p.ws[i]);
        }
        std::string o = "[";
        volatile int rc = guarded([&]() { p.f(a.data(), o, k < 3); });
        if (rc) { o = "[[-1]"; }
        o += ']';
        out.begin_case();
        out.line += '[';
        for (size_t i = 0; i < a.size(); i++) { if (i) out.sep(); out.nat(a[i]); }
        out.line += ']'; out.sep(); out.line += o;
        out.end_case();
    }
}
#endif
