// Recording of IEEE interchange encodings <<sign, exponent field, fraction>>.
#ifndef verif_ieee_hpp
#define verif_ieee_hpp
#include "gens.hpp"
#include "thls/tops/fp_ieee.hpp"

template<int E, int F> inline thls::fp_ieee<E, F> to_ie(const V &v) {
    return thls::fp_ieee<E, F>(thls::concat(to_fw<1>(v.s), to_fw<E>(v.e), to_fw<F>(v.f)));
}
template<int E, int F> inline V from_ie(const thls::fp_ieee<E, F> &x) {
    u128 b = from_fw<E + F + 1>(x.bits);
    return mkv(1, (int)(b >> (E + F)), (int)(b >> F) & ((1 << E) - 1), b & mask128(F));
}
inline void put_ie(const V &v) {
    out.line += '['; out.num(v.s); out.line += ','; out.num(v.e); out.line += ','; out.nat(v.f); out.line += ']';
}
// Encodings of every kind: zeros, subnormals, ends of the normal range, infinities, NaNs.
inline V ie_value(Rng &r, int E, int F) {
    int top = (1 << E) - 1;
    int e;
    switch (r.below(8)) {
    case 0: e = 0; break;
    case 1: e = top; break;
    case 2: e = 1 + (int)r.below(2); break;
    case 3: e = top - 1 - (int)r.below(2); break;
    default: e = exp_pattern(r, E);
    }
    e = clampe(e, E);
    u128 f = r.below(3) == 0 ? 0 : frac_pattern(r, F);
    return mkv(1, r.coin(), e, f);
}
inline std::vector<V> ie_values(Rng &r, int E, int F, long n) {
    std::vector<V> v;
    if (E + F <= 11) {
        for (int s = 0; s < 2; s++) for (int e = 0; e < (1 << E); e++) for (uint32_t f = 0; f < (1u << F); f++)
            v.push_back(mkv(1, s, e, f));
        return v;
    }
    int top = (1 << E) - 1, es[] = {0, 1, 2, top / 2, top - 2, top - 1, top};
    u128 fs[] = {0, 1, mask128(F), (u128)1 << (F - 1), mask128(F - 1), r.bits(F)};
    for (int s = 0; s < 2; s++) for (int i = 0; i < 7; i++) for (int j = 0; j < 6; j++)
        v.push_back(mkv(1, s, es[i], fs[j] & mask128(F)));
    for (long i = 0; i < n; i++) v.push_back(ie_value(r, E, F));
    return v;
}
#endif
