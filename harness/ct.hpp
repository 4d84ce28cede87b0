// Recording of compile-time generators and vectors.
#ifndef verif_ct_hpp
#define verif_ct_hpp
#include "fw.hpp"
#include "thls/tops/lut_opt.hpp"
#include "thls/tops/ct/ct_rng_lcg_mod_p.hpp"
using namespace thls::ct;
template<int K> using C = std::integral_constant<int, K>;
template<class A, class B> using Br = ct_vec_branch<A, B>;
template<int K> using Lf = ct_vec_leaf<C<K> >;

// The elements of a vector, in order.
template<class V> struct Elems;
template<> struct Elems<ct_vec_empty> { static void put(std::vector<int> &) {} };
template<class T> struct Elems<ct_vec_leaf<T> > { static void put(std::vector<int> &o) { o.push_back(T::value); } };
template<class L, class R> struct Elems<ct_vec_branch<L, R> > { static void put(std::vector<int> &o) { Elems<L>::put(o); Elems<R>::put(o); } };
inline void put_list(std::string &o, const std::vector<int> &v) {
    o += '[';
    for (size_t i = 0; i < v.size(); i++) { if (i) o += ','; o += S(v[i]); }
    o += ']';
}
template<class V> inline std::string list() { std::vector<int> v; Elems<V>::put(v); std::string o; put_list(o, v); return o; }
inline std::string nat(u128 x) { std::string o; put_nat(o, x); return o; }

struct Visit { std::string *o; template<class T> void operator()(int off, const T *) { if (o->size() > 1) *o += ','; *o += "[" + S(off) + "," + S(T::value) + "]"; } };
struct Reduce {      // keeps positions and elements in order
    template<class A, class B> struct reduce_type { typedef std::string type; };
    template<int off, class T> struct map_type { typedef std::string type; };
    template<int off, class T> std::string map() const { return "[" + S(off) + "," + S(T::value) + "]"; }
    std::string reduce(const std::string &a, const std::string &b) const { return a + "," + b; }
};
inline void emit(const std::string &s) { out.begin_case(); out.line += s; out.end_case(); }
template<class G, int D> inline void skip_case(uint32_t seed) {
    typedef typename skip_by<G, D>::type H;
    uint32_t v = H::value, w = sample_at<G, D>::value;
    emit(nat(seed) + "," + S(D < 0) + "," + nat(D < 0 ? (u128)(-(int64_t)D) : (u128)D) + "," + nat(v));
    if (v != w) emit(nat(seed) + "," + S(D < 0) + "," + nat(D < 0 ? (u128)(-(int64_t)D) : (u128)D) + "," + nat(w));
}
template<class G, int D1, int D2> inline void skip2_case() {     // skips compose
    typedef typename skip_by<G, D1>::type H;
    skip_case<H, D2>(H::value);
}
template<class G, class V> inline void perm_case() {
    typedef ct_vec_permute<G, V> P;
    emit(nat(G::value) + "," + list<V>() + "," + list<typename P::type>() + "," + nat(P::rng::value));
}
template<class V> inline void unique_case() { emit(list<V>() + "," + list<typename ct_vec_unique<V>::type>()); }
template<class V, int I> inline void read_case() { emit(list<V>() + "," + S(I) + "," + S(ct_vec_read<I, V>::type::value)); }
template<class V, int I, int K> inline void write_case() {
    emit(list<V>() + "," + S(I) + "," + S(K) + "," + list<typename ct_vec_write<I, C<K>, V>::type>()); }
template<class V, int I, int J> inline void swap_case() {
    emit(list<V>() + "," + S(I) + "," + S(J) + "," + list<typename ct_vec_swap<I, J, V>::type>()); }
template<int O, int N> inline void rotation_case() { emit(S(O) + "," + S(N) + "," + list<typename create_ct_vec_rotation<O, N>::type>()); }
template<int N, int K> inline void fill_case() { emit(S(N) + "," + S(K) + "," + list<typename create_ct_vec<N, C<K> >::type>()); }
template<class V> inline void visit_case() { std::string o = "["; Visit f; f.o = &o; ct_vec_for_each<V>(f); emit(list<V>() + "," + o + "]"); }
template<class V> inline void reduce_case() { emit(list<V>() + ",[" + ct_vec_map_reduce<V>(Reduce()) + "]"); }

template<int N> inline void bits_list(std::string &o, const F<N> &x) {
    u128 b = raw(x);
    o += '[';
    bool first = true;
    for (int i = 0; b; i++, b >>= 1) if (b & 1) { if (!first) o += ','; first = false; o += S(i); }
    o += ']';
}
template<int N, int T, uint32_t SEED> inline void lut_run(uint64_t seed, int runs, int len) {
    typedef thls::lut_opt_spec<N, T, SEED> G;
    Rng r(hash_str("lut") ^ (seed * 77777ull) ^ (N * 1000003ull + T * 9176ull + SEED));
    for (int k = 0; k < runs; k++) {
        typename G::state_t s = mk<N>(k == 0 ? (u128)1 << (SEED % N) : frac_pattern(r, N));
        std::string l = "{\"op\":\"lut\",\"whole\":1,\"v\":\"lut_opt\",\"p\":[" + S((int)G::n) + "," + S((int)G::t) + "],\"s\":" + nat(SEED) + ",\"states\":[";
        bits_list<N>(l, s);
        for (int i = 0; i < len; i++) { s = G::step(s); l += ','; bits_list<N>(l, s); }
        out.raw(l + "]}");
    }
}
#endif
