// Recording side of the conformance checks: values, case generators and the
// trace writer.  Nothing here looks inside the library; it drives the public
// operations of the headers in /repo/include and records what they return.
#ifndef verif_trace_hpp
#define verif_trace_hpp

#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <set>
#include <functional>
#include <stdexcept>

typedef unsigned __int128 u128;

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
    u128 bits(int w) {
        u128 r = ((u128)next() << 64) | next();
        if (w <= 0) return 0;
        return w >= 128 ? r : (r & ((((u128)1) << w) - 1));
    }
    bool coin() { return (next() >> 20) & 1; }
};

inline uint64_t hash_str(const char *p) {
    uint64_t h = 1469598103934665603ull;
    for (; *p; p++) { h ^= (unsigned char)*p; h *= 1099511628211ull; }
    return h;
}

inline u128 mask128(int w) { return w <= 0 ? 0 : w >= 128 ? ~(u128)0 : ((((u128)1) << w) - 1); }

// -------------------------------------------------------------------- values
// A stored floating-point value: class (0 zero, 1 normal, 2 infinity, 3 NaN),
// sign, exponent field and fraction field.
struct V { int c, s, e; u128 f; };
inline V mkv(int c, int s, int e, u128 f) { V v; v.c = c; v.s = s; v.e = e; v.f = f; return v; }

// ------------------------------------------------------- asserts in the library
// The library checks its own preconditions and invariants with assert(); an
// assertion that fires on a legal input is an observable failure, recorded as
// the result class 9 instead of ending the recording.
static sigjmp_buf g_abort_jmp;
static volatile sig_atomic_t g_abort_armed = 0;
static long g_aborts = 0;
inline void on_signal(int sig) {
    if (g_abort_armed) { g_abort_armed = 0; siglongjmp(g_abort_jmp, sig); }
    _exit(97);
}
inline void install_handlers() {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGABRT, &sa, 0);
    sigaction(SIGFPE, &sa, 0);
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGILL, &sa, 0);
    if (!getenv("VERIF_SHOW_STDERR")) { if (!freopen("/dev/null", "w", stderr)) {} }
}
// Runs body(); returns 0 normally, 1 for an assertion/crash, 2 for an exception.
template<class B>
inline int guarded(B body) {
    if (sigsetjmp(g_abort_jmp, 1)) { g_aborts++; return 1; }
    g_abort_armed = 1;
    try { body(); } catch (std::exception &) { g_abort_armed = 0; return 2; }
    g_abort_armed = 0;
    return 0;
}

// -------------------------------------------------------------------- writer
struct Out {
    FILE *f;
    std::string line;
    int n, per;            // cases in the open line, cases per line
    long cases, lines;
    std::string head;
    bool open;
    Out() : f(0), n(0), per(48), cases(0), lines(0), open(false) {}
    void start(const char *path) {
        f = fopen(path, "w");
        if (!f) { printf("cannot write %s\n", path); exit(98); }
    }
    void num(long x) {
        char b[24]; int i = 24; bool neg = x < 0; unsigned long u = neg ? -(unsigned long)x : x;
        do { b[--i] = '0' + u % 10; u /= 10; } while (u);
        if (neg) b[--i] = '-';
        line.append(b + i, 24 - i);
    }
    // a natural number as limbs
    void nat(u128 x) {
        line += '[';
        bool first = true;
        while (x) { if (!first) line += ','; first = false; num((long)(x & 32767)); x >>= 15; }
        line += ']';
    }
    // a natural number held little-endian in 32-bit words
    void natw(const std::vector<uint32_t> &w) {
        line += '[';
        int top = (int)w.size() * 32;
        std::vector<int> limbs;
        for (int b = 0; b < top; b += 15) {
            int v = 0;
            for (int k = 0; k < 15 && b + k < top; k++)
                if ((w[(b + k) / 32] >> ((b + k) % 32)) & 1) v |= 1 << k;
            limbs.push_back(v);
        }
        while (!limbs.empty() && limbs.back() == 0) limbs.pop_back();
        for (size_t i = 0; i < limbs.size(); i++) { if (i) line += ','; num(limbs[i]); }
        line += ']';
    }
    void val(const V &v) {
        line += '[';
        num(v.c); line += ','; num(v.s); line += ','; num(v.e); line += ',';
        nat(v.f);
        line += ']';
    }
    // Opens a group of cases that share a header: a list of JSON members.
    void group(const std::string &h) { flush(); head = h; }
    void begin_case() {
        if (!open) { line = "{" + head + ",\"c\":["; open = true; n = 0; }
        else line += ',';
        line += '[';
    }
    void sep() { line += ','; }
    void end_case() {
        line += ']';
        n++; cases++;
        if (n >= per) flush();
    }
    void flush() {
        if (open) {
            line += "]}\n";
            fwrite(line.data(), 1, line.size(), f);
            lines++;
            open = false;
        }
    }
    void raw(const std::string &s) { flush(); fwrite(s.data(), 1, s.size(), f); fputc('\n', f); lines++; cases++; }
    void finish() {
        flush();
        fclose(f);
        printf("CASES %ld LINES %ld ABORTS %ld\n", cases, lines, g_aborts);
    }
};
static Out out;

inline std::string S(long x) { char b[32]; snprintf(b, sizeof b, "%ld", x); return b; }
inline std::string fmtj(int e, int f) { return "[" + S(e) + "," + S(f) + "]"; }

// ---------------------------------------------------------------- generators
// Fraction patterns of a w-bit field: the shapes carry chains, sticky bits and
// ties are made of.
inline u128 frac_pattern(Rng &r, int w) {
    u128 m = mask128(w);
    if (w == 0) return 0;
    int k = r.below(w + 1), j = r.below(w + 1);
    switch (r.below(14)) {
    case 0: return 0;
    case 1: return m;
    case 2: return 1 & m;
    case 3: return m - 1;
    case 4: return ((u128)1 << (w - 1));
    case 5: return (((u128)1 << (w - 1)) | 1) & m;
    case 6: return (((u128)1 << k) - (k < 128 ? 0 : 0)) & m;          // one bit
    case 7: return mask128(k);                                        // low ones
    case 8: return m ^ mask128(k);                                    // high ones
    case 9: return (mask128(k) ^ mask128(j)) & m;                     // a run of ones
    case 10: return r.bits(w) & (m ^ mask128(k));                     // random, k trailing zeros
    case 11: return (r.bits(w) | mask128(k)) & m;                     // random, k trailing ones
    case 12: return (((u128)1 << k) | ((u128)1 << j)) & m;            // two bits
    default: return r.bits(w);
    }
}
// A fraction whose significand (with the hidden one) has its lowest set bit at
// position t exactly (0 <= t <= w; t = w gives the fraction zero).
inline u128 frac_tz(Rng &r, int w, int t) {
    if (t >= w) return 0;
    u128 v = r.coin() ? r.bits(w) : (r.coin() ? 0 : mask128(w));
    v &= mask128(w) ^ mask128(t);
    return v | ((u128)1 << t);
}
inline int exp_pattern(Rng &r, int E) {
    int top = (1 << E) - 1, bias = (1 << (E - 1)) - 1;
    switch (r.below(8)) {
    case 0: { int v = r.below(3); return v > top ? 0 : v; }
    case 1: { int v = top - (int)r.below(3); return v < 0 ? 0 : v; }
    case 2: case 3: { int v = bias + (int)r.below(7) - 3; return v < 0 ? 0 : v > top ? top : v; }
    default: return r.below(top + 1);
    }
}
inline int clampe(int e, int E) { int top = (1 << E) - 1; return e < 0 ? 0 : e > top ? top : e; }
// Any value, special classes with probability 1/16 each, don't-care bits arbitrary.
inline V any_value(Rng &r, int E, int F) {
    int k = r.below(20);
    int c = k == 0 ? 0 : k == 1 ? 2 : k == 2 ? 3 : 1;
    return mkv(c, r.coin(), exp_pattern(r, E), frac_pattern(r, F));
}
inline V norm_value(Rng &r, int E, int F) {
    return mkv(1, r.coin(), exp_pattern(r, E), frac_pattern(r, F));
}
// The specials in both signs, each with clean and with arbitrary don't-care bits.
inline std::vector<V> specials(Rng &r, int E, int F) {
    std::vector<V> v;
    int top = (1 << E) - 1;
    for (int c = 0; c < 4; c++) if (c != 1)
        for (int s = 0; s < 2; s++) {
            v.push_back(mkv(c, s, 0, 0));
            v.push_back(mkv(c, s, top, mask128(F)));
            v.push_back(mkv(c, s, r.below(top + 1), r.bits(F)));
        }
    return v;
}
// Normals at the ends of the range and around one.
inline std::vector<V> landmarks(Rng &r, int E, int F) {
    std::vector<V> v;
    int top = (1 << E) - 1, bias = (1 << (E - 1)) - 1;
    int es[] = {0, 1, bias - 1, bias, bias + 1, top - 1, top};
    for (unsigned i = 0; i < 7; i++)
        for (int s = 0; s < 2; s++) {
            v.push_back(mkv(1, s, es[i], 0));
            v.push_back(mkv(1, s, es[i], mask128(F)));
            if (F > 0) v.push_back(mkv(1, s, es[i], 1));
            v.push_back(mkv(1, s, es[i], r.bits(F)));
        }
    return v;
}
// Every stored value of a small format that has a distinct meaning, and the
// specials with clean and dirty don't-care bits.
inline std::vector<V> all_values(Rng &r, int E, int F) {
    std::vector<V> v = specials(r, E, F);
    for (int s = 0; s < 2; s++)
        for (int e = 0; e < (1 << E); e++)
            for (uint32_t f = 0; f < (1u << F); f++)
                v.push_back(mkv(1, s, e, f));
    return v;
}
#endif
