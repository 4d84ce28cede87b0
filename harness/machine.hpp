// Register files of number types, recorded after every step.
#ifndef verif_machine_hpp
#define verif_machine_hpp
#include "ieee.hpp"
#include "thls/tops/fp_convert.hpp"
#include "thls/tops/fp_promote.hpp"
#include "thls/tops/fp_flopoco_primitives.hpp"
#include "thls/tops/fp_flopoco_ordering.hpp"

// ---- recording the contents of a register
template<int E, int F> inline void putr(const thls::fp_flopoco<E, F> &x) { out.val(from_fp(x)); }
template<int E, int F> inline void putr(const thls::fp_ieee<E, F> &x) { put_ie(from_ie(x)); }
inline void putr(double d) { uint64_t b; memcpy(&b, &d, 8); put_enc(mkv(1, (int)(b >> 63), (int)(b >> 52) & 2047, b & mask128(52))); }
inline void putr(float d) { uint32_t b; memcpy(&b, &d, 4); put_enc(mkv(1, (int)(b >> 31), (int)(b >> 23) & 255, b & mask128(23))); }
struct Flag { int b; Flag() : b(0) {} Flag(int x) : b(x) {} operator bool() const { return b != 0; } };
inline void putr(const Flag &x) { out.line += '['; out.num(x.b); out.line += ']'; }

// ---- filling a register: mostly near one, sometimes anything, and specials with don't-care bits
inline V mach_value(Rng &r, int E, int F) {
    int bias = (1 << (E - 1)) - 1;
    switch (r.below(10)) {
    case 0: return any_value(r, E, F);
    case 1: return mkv(r.below(2) ? 0 : (int)r.below(4), r.coin(), r.coin() ? (1 << E) - 1 : (int)r.below(1 << E), r.coin() ? mask128(F) : r.bits(F));
    case 2: return norm_value(r, E, F);
    default: return mkv(1, r.coin(), clampe(bias + (int)r.below(9) - 4, E), frac_pattern(r, F));
    }
}
template<int E, int F> inline void fill(Rng &r, thls::fp_flopoco<E, F> &x) { x = to_fp<E, F>(mach_value(r, E, F)); }
inline V mach_ie(Rng &r, int E, int F) {
    if (r.below(4) == 0) return ie_value(r, E, F);
    return mkv(1, r.coin(), clampe((1 << (E - 1)) - 1 + (int)r.below(9) - 4, E), frac_pattern(r, F));
}
template<int E, int F> inline void fill(Rng &r, thls::fp_ieee<E, F> &x) { x = to_ie<E, F>(mach_ie(r, E, F)); }
inline void fill(Rng &r, double &d) { V v = mach_ie(r, 11, 52); uint64_t b = ((uint64_t)v.s << 63) | ((uint64_t)v.e << 52) | (uint64_t)v.f; memcpy(&d, &b, 8); }
inline void fill(Rng &r, float &d) { V v = mach_ie(r, 8, 23); uint32_t b = ((uint32_t)v.s << 31) | ((uint32_t)v.e << 23) | (uint32_t)v.f; memcpy(&d, &b, 4); }
inline void fill(Rng &r, Flag &x) { x.b = r.coin(); }

struct Ins { const char *head; void (*f)(Rng &); };

// Runs random programs over the table and records every register file.
inline void machine(const char *name, const char *types, const Ins *tab, int nt, int nload, void (*dump)(), void (*load)(Rng &),
                    uint64_t seed, int runs, int len) {
    Rng r(hash_str(name) ^ (seed * 77777ull));
    for (int k = 0; k < runs; k++) {
        load(r);
        out.line = std::string("{\"v\":\"") + name + "\",\"types\":" + types + ",\"init\":";
        dump();
        out.line += ",\"steps\":[";
        bool dead = false;
        for (int i = 0; i < len && !dead; i++) {
            int q = r.below(5) == 0 ? (int)r.below(nload) : nload + (int)r.below(nt - nload);    // the loads come first
            volatile int rc = guarded([&]() { tab[q].f(r); });
            if (i) out.line += ',';
            out.line += tab[q].head;
            out.line += ",\"regs\":";
            if (rc) { out.line += "[[9]]"; dead = true; } else dump();
            out.line += '}';
            out.cases++;
        }
        out.line += "]}";
        std::string s = out.line;
        out.cases--;                 // raw() counts one
        out.raw(s);
    }
}
#endif
