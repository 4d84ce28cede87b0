"""C21: the MPFR-backed reference functions."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program
from vf.props import c13

DECL = """
#include "thls/tops/fp_flopoco.hpp"
template<int ER,int FR,int EX,int FX,int EY,int FY,int EZ,int FZ> struct K3 {
  static V fma(const V &x, const V &y, const V &z) { return from_fp((thls::ref_fma<ER,FR>(to_fp<EX,FX>(x), to_fp<EY,FY>(y), to_fp<EZ,FZ>(z)))); }
  static V fmad(const V &x, const V &y, const V &z) { thls::fp_flopoco<ER,FR> d; thls::ref_fma(d, to_fp<EX,FX>(x), to_fp<EY,FY>(y), to_fp<EZ,FZ>(z)); return from_fp(d); }
  static void go(uint64_t seed, long n) {
    { Tri t = {"fmaonce", "ref_fma", EX,FX,EY,FY,EZ,FZ,ER,FR, fma}; fma_run(t, seed, n); }
    { Tri t = {"fmaonce", "ref_fma_dst", EX,FX,EY,FY,EZ,FZ,ER,FR, fmad}; fma_run(t, seed, n / 4); }
  }
};
template<int ER,int FR,int EX,int FX,int EY,int FY> struct K2 {
  typedef thls::fp_flopoco<ER,FR> R;
  static V add(const V &x, const V &y) { return from_fp((thls::ref_add<ER,FR>(to_fp<EX,FX>(x), to_fp<EY,FY>(y)))); }
  static V mul(const V &x, const V &y) { return from_fp((thls::ref_mul<ER,FR>(to_fp<EX,FX>(x), to_fp<EY,FY>(y)))); }
  static V div(const V &x, const V &y) { return from_fp((thls::ref_div<ER,FR>(to_fp<EX,FX>(x), to_fp<EY,FY>(y)))); }
  static V pow(const V &x, const V &y) { return from_fp((thls::ref_pow<ER,FR>(to_fp<EX,FX>(x), to_fp<EY,FY>(y)))); }
  static V addd(const V &x, const V &y) { R d; thls::ref_add(d, to_fp<EX,FX>(x), to_fp<EY,FY>(y)); return from_fp(d); }
  static V muld(const V &x, const V &y) { R d; thls::ref_mul(d, to_fp<EX,FX>(x), to_fp<EY,FY>(y)); return from_fp(d); }
  static V divd(const V &x, const V &y) { R d; thls::ref_div(d, to_fp<EX,FX>(x), to_fp<EY,FY>(y)); return from_fp(d); }
  static V powd(const V &x, const V &y) { R d; thls::ref_pow(d, to_fp<EX,FX>(x), to_fp<EY,FY>(y)); return from_fp(d); }
  static void go(uint64_t seed, long n) {
    { Bin b = {"add", "ref_add", EX,FX,EY,FY,ER,FR, add}; run_bin(b, seed, n, gen_add); }
    { Bin b = {"mul", "ref_mul", EX,FX,EY,FY,ER,FR, mul}; run_bin(b, seed, n, gen_mul); }
    { Bin b = {"div", "ref_div", EX,FX,EY,FY,ER,FR, div}; run_bin(b, seed, n, gen_div); }
    { Bin b = {"add", "ref_add_dst", EX,FX,EY,FY,ER,FR, addd}; run_bin(b, seed, n / 8, gen_add); }
    { Bin b = {"mul", "ref_mul_dst", EX,FX,EY,FY,ER,FR, muld}; run_bin(b, seed, n / 8, gen_mul); }
    { Bin b = {"div", "ref_div_dst", EX,FX,EY,FY,ER,FR, divd}; run_bin(b, seed, n / 8, gen_div); }
  }
  // Powers: small integers and halves, specials, results near the ends of the range, and anything else.
  static void pow_go(uint64_t seed, long n) {
    for (int d = 0; d < 2; d++) {
      Bin b = {"pow", d ? "ref_pow_dst" : "ref_pow", EX,FX,EY,FY,ER,FR, d ? powd : pow};
      Rng r(bin_seed(b, seed));
      out.per = 16;
      out.group(binhead(b) + ",\\"pure\\":1");
      std::vector<V> sx = specials(r, EX, FX), sy = specials(r, EY, FY);
      int bx = (1 << (EX - 1)) - 1, by = (1 << (EY - 1)) - 1, br = (1 << (ER - 1)) - 1, ty = (1 << EY) - 1;
      std::vector<V> ints;      // small integers and halves, of both signs
      for (int k = 1; k <= 12; k++) for (int h = 0; h < 4; h++) for (int s = 0; s < 2; s++) {
        int len = 0; while (k >> len) len++;
        int e = len - 1 - h + by; if (len - 1 > FY || e < 0 || e > ty) continue;
        ints.push_back(mkv(1, s, e, ((u128)k << (FY - len + 1)) & mask128(FY))); }
      for (size_t i = 0; i < sx.size(); i++) for (size_t j = 0; j < sy.size(); j++) rec2(b, sx[i], sy[j]);
      for (long i = 0; i < (d ? n / 4 : n); i++) {
        V x = norm_value(r, EX, FX), y = ints[r.below(ints.size())];
        if (r.coin()) x.s = 0;
        switch (r.below(6)) { case 0: x.e = clampe(bx, EX); break; case 1: x.e = clampe(bx + (int)r.below(3) - 1, EX); break;
          case 2: x.e = clampe(bx + (int)r.below(2 * br / 3 + 2) - br / 3, EX); break; case 3: x.f = frac_tz(r, FX, r.below(FX + 1)); break; default:; }
        switch (r.below(5)) { case 0: y = norm_value(r, EY, FY); y.e = clampe(by + (int)r.below(12) - 6, EY); if (r.below(3)) x.s = 0; break;
          case 1: y = norm_value(r, EY, FY); if (r.below(3)) x.s = 0; break;
          case 2: { int k = r.below(4) ? 0 : 1; if (k) y = sy[r.below(sy.size())]; else x = sx[r.below(sx.size())]; break; } default:; }
        if (r.below(20) == 0) { x.e = clampe(bx, EX); x.f = 0; }
        rec2(b, x, y);
      }
      out.per = 48;
    }
  }
};
template<int ER,int FR,int EX,int FX> struct K1 {
  typedef thls::fp_flopoco<ER,FR> R;
  static V neg(const V &x) { return from_fp((thls::ref_neg<ER,FR>(to_fp<EX,FX>(x)))); }
  static V inv(const V &x) { return from_fp((thls::ref_inv<ER,FR>(to_fp<EX,FX>(x)))); }
  static V invd(const V &x) { R d; thls::ref_inv(d, to_fp<EX,FX>(x)); return from_fp(d); }
  static V conv(const V &x) { return from_fp((thls::ref_convert<ER,FR>(to_fp<EX,FX>(x)))); }
  static V sqr(const V &x) { return from_fp((thls::ref_square<ER,FR>(to_fp<EX,FX>(x)))); }
  static V sqrd(const V &x) { R d; thls::ref_square(d, to_fp<EX,FX>(x)); return from_fp(d); }
  static V sqrt(const V &x) { return from_fp((thls::ref_sqrt<ER,FR>(to_fp<EX,FX>(x)))); }
  static V exp(const V &x) { return from_fp((thls::ref_exp<ER,FR>(to_fp<EX,FX>(x)))); }
  static V log(const V &x) { return from_fp((thls::ref_log<ER,FR>(to_fp<EX,FX>(x)))); }
  template<int P> static V ld(const V &x) { return from_fp((thls::ref_ldexp_const<ER,FR,P>(to_fp<EX,FX>(x)))); }
  template<int P> static V ldd(const V &x) { R d; thls::ref_ldexp_const<ER,FR,P>(d, to_fp<EX,FX>(x)); return from_fp(d); }
  static V sel(const V &x, int which) { R a, b; thls::ref_inv_faithful(a, b, to_fp<EX,FX>(x)); return from_fp(which ? b : a); }
  static V inv0(const V &x) { return sel(x, 0); }
  static V inv1(const V &x) { return sel(x, 1); }
  static void un(const char *op, const char *v, fn1 f, uint64_t seed, long n) { Un u = {op, v, EX, FX, ER, FR, f}; run_un(u, seed, n); }
  template<int P> static void ldgo(uint64_t seed, long n) {
    for (int d = 0; d < 2; d++) {
      Un u = {"ldexp", d ? "ref_ldexp_const_dst" : "ref_ldexp_const", EX, FX, ER, FR, d ? ldd<P> : ld<P>};
      Rng r(hash_str(unhead(u).c_str()) ^ (seed * 77777ull) ^ P);
      out.group(unhead(u) + ",\\"k\\":" + S(P));
      std::vector<V> s = specials(r, EX, FX), l = landmarks(r, EX, FX);
      for (size_t i = 0; i < s.size(); i++) rec1(u, s[i]);
      for (size_t i = 0; i < l.size(); i++) rec1(u, l[i]);
      int dd = (1 << (ER - 1)) - (1 << (EX - 1)) + P, top = (1 << ER) - 1;
      for (long i = 0; i < (d ? n / 4 : n); i++) {
        V x = norm_value(r, EX, FX);
        switch (r.below(4)) { case 0: x.e = clampe(-dd + (int)r.below(5) - 2, EX); break; case 1: x.e = clampe(top - dd + (int)r.below(5) - 2, EX); break; default:; }
        int drop = FX - FR;
        if (drop >= 1 && r.coin()) x.f = ((r.coin() ? x.f : mask128(FX)) & ~mask128(drop)) | ((((u128)1 << (drop - 1)) + (u128)r.below(3) - 1) & mask128(drop));
        rec1(u, x);
      }
    }
  }
  static void pairs(uint64_t seed, long n) {
    Un u = {"invpair", "ref_inv_faithful", EX, FX, ER, FR, inv0};
    Rng r(hash_str(unhead(u).c_str()) ^ (seed * 77777ull));
    out.group(unhead(u));
    std::vector<V> vs = specials(r, EX, FX), l = landmarks(r, EX, FX);
    vs.insert(vs.end(), l.begin(), l.end());
    if (EX + FX <= 9) vs = all_values(r, EX, FX);
    else for (long i = 0; i < n; i++) { V x = norm_value(r, EX, FX);
      int d = (1 << (ER - 1)) + (1 << (EX - 1));
      if (r.below(4) == 0) x.e = clampe(d - 4 + (int)r.below(6), EX); else if (r.below(3) == 0) x.e = clampe(d - (1 << ER) - 3 + (int)r.below(6), EX);
      if (r.below(6) == 0) x.f = frac_tz(r, FX, r.below(FX + 1)); vs.push_back(x); }
    for (size_t i = 0; i < vs.size(); i++) { V a = call1(inv0, vs[i]), b = call1(inv1, vs[i]);
      out.begin_case(); out.val(vs[i]); out.line += ",["; out.val(a); out.sep(); out.val(b); out.line += ']'; out.end_case(); }
  }
  static void go(uint64_t seed, long n) {
    un("neg", "ref_neg", neg, seed, n / 2); un("inv", "ref_inv", inv, seed, n); un("inv", "ref_inv_dst", invd, seed, n / 4);
    un("conv", "ref_convert", conv, seed, n);
    un("sqr", "ref_square", sqr, seed, n); un("sqr", "ref_square_dst", sqrd, seed, n / 4);
    pairs(seed, n);
  }
  // Roots: of anything, of squares, and of what lies beside the square of a midpoint.
  static void sqrt_go(uint64_t seed, long n) {
    un("sqrt", "ref_sqrt", sqrt, seed, n);
    Un u = {"sqrt", "ref_sqrt", EX, FX, ER, FR, sqrt};
    Rng r(seed * 919 + EX * 131 + FX);
    out.group(unhead(u));
    for (long i = 0; i < n; i++) {
      V x = norm_value(r, EX, FX); x.s = 0;
      int k = r.below(3) == 0 ? FR + 2 : 1 + (int)r.below((FX + 1) / 2);   // bits of the root
      if (k > 62) k = 62;
      u128 q = r.bits(k) | ((u128)1 << (k - 1)) | 1, p = q * q;
      int len = bitlen(p);
      u128 m = len > FX + 1 ? p >> (len - FX - 1) : p << (FX + 1 - len);
      if (len > FX + 1 || r.below(3) == 0) m += (u128)r.below(3) - 1;
      x.f = m & mask128(FX);
      if (r.coin()) x.e = clampe((1 << (EX - 1)) - 1 + (int)r.below(6) - 3, EX);
      rec1(u, x);
    }
  }
  static void elem(const char *op, const char *v, fn1 f, uint64_t seed, long n) {
    Un u = {op, v, EX, FX, ER, FR, f};
    Rng r(hash_str(unhead(u).c_str()) ^ (seed * 77777ull));
    out.per = 16;
    out.group(unhead(u) + ",\\"pure\\":1");
    std::vector<V> s = specials(r, EX, FX), l = landmarks(r, EX, FX);
    for (size_t i = 0; i < s.size(); i++) rec1(u, s[i]);
    for (size_t i = 0; i < l.size(); i++) rec1(u, l[i]);
    int bias = (1 << (EX - 1)) - 1;
    for (long i = 0; i < n; i++) {
      V x = norm_value(r, EX, FX);
      switch (r.below(6)) {
      case 0: x.e = clampe(bias + (int)r.below(5) - 2, EX); break;                       // about one
      case 1: x.e = clampe(bias + ER - 3 + (int)r.below(4), EX); break;                  // the exponential leaves the range
      case 2: x.e = clampe(bias - (int)r.below(2 * FR + 6), EX); break;                  // the exponential comes close to one
      case 3: x.e = clampe(bias - (int)r.below(2), EX); x.f = x.e == bias ? r.bits(FX < 4 ? FX : 4) : mask128(FX) ^ r.bits(FX < 4 ? FX : 4); break;  // beside one
      default:; }
      if (op[0] == 'l' && r.below(8)) x.s = 0;
      rec1(u, x);
    }
    out.per = 48;
  }
  static void elem_go(uint64_t seed, long n) { elem("exp", "ref_exp", exp, seed, n); elem("log", "ref_log", log, seed, n); }
};
"""

# The dot products' references, by the generator of C13.
def dot_decl(N):
    d = c13.DECL % {"N": N}
    args = ", ".join("to_fp<E,FB>(a[%d])" % (2 * i) for i in range(N)) + ", " + ", ".join("to_fp<E,FB>(a[%d])" % (2 * i + 1) for i in range(N))
    for nm, fn in (("Any", "ref"), ("Large", "ref_large"), ("Small", "ref_small")):
        d += """
template<int E,int FB> struct %s { static V dot(const V *a) { return from_fp(thls::dot%d_pos_rndd_%s<E,FB>(%s)); }
  static void go(uint64_t seed, long n) { Dot d = {"dot%d_pos_rndd_%s", %d, E, FB, dot}; go_dot(d, seed, n); } };
""" % (nm, N, fn, args, N, fn, N)
    return d


def plan(seed, tier):
    r = rng(seed, "C21")
    quick = tier == "quick"
    n = 3000 if quick else 15000

    def fmt(lo=2, hi=11, w=52):
        return r.randint(lo, hi), (r.randint(1, 6) if r.random() < 0.25 else r.randint(1, w))
    shards = []

    def add(name, lines, parts, hdr="tri.hpp", decl=DECL):
        for k, part in enumerate(split(lines, parts)):
            shards.append(Shard("%s%02d" % (name, k), program([hdr], decl, "".join(part))))
    # two operands; the result format is free
    two = [(5, 10, 5, 10, 5, 10), (8, 23, 8, 23, 8, 23), (11, 52, 8, 23, 8, 23), (4, 3, 8, 23, 8, 10), (2, 2, 3, 2, 2, 3), (8, 1, 8, 23, 5, 10)]
    while len(two) < (14 if quick else 120):
        two.append(fmt() + fmt() + fmt())
    add("two", ["    K2<%d,%d,%d,%d,%d,%d>::go(seed, %d);\n" % (t + (n,)) for t in two], 4 if quick else 24)
    one = [(5, 10, 5, 10), (8, 23, 8, 23), (8, 23, 11, 52), (11, 52, 8, 23), (3, 2, 4, 4), (6, 30, 5, 3)]
    while len(one) < (18 if quick else 160):
        one.append(fmt() + fmt())
    lines = ["    K1<%d,%d,%d,%d>::go(seed, %d);\n" % (t + (n,)) for t in one]
    for t in one:
        for p in {0, 1, -1, r.randint(-70, 70), r.randint(-2 ** t[0], 2 ** t[0])}:
            lines.append("    K1<%d,%d,%d,%d>::ldgo<%d>(seed, %d);\n" % (t + (p, n // 4)))
    add("one", lines, 4 if quick else 24)
    add("sqrt", ["    K1<%d,%d,%d,%d>::sqrt_go(seed, %d);\n" % (t + (n,)) for t in one], 2 if quick else 12)
    m = 400 if quick else 3000
    el = [(5, 10, 5, 10), (8, 23, 8, 23), (4, 3, 4, 3), (11, 52, 11, 52), (8, 23, 5, 10), (3, 2, 8, 23)]
    while len(el) < (12 if quick else 60):
        el.append(fmt() + fmt())
    add("elem", ["    K1<%d,%d,%d,%d>::elem_go(seed, %d);\n" % (t + (m,)) for t in el], 6 if quick else 30)
    pw = [(5, 10, 5, 10, 5, 10), (8, 23, 8, 23, 8, 23), (4, 3, 4, 4, 4, 4), (8, 12, 6, 20, 3, 4)]
    while len(pw) < (10 if quick else 50):
        pw.append(fmt() + fmt() + fmt())
    add("pow", ["    K2<%d,%d,%d,%d,%d,%d>::pow_go(seed, %d);\n" % (t + (m,)) for t in pw], 5 if quick else 25)
    three = [(5, 10) * 4, (8, 23) * 4, (8, 23, 5, 10, 8, 7, 8, 40), (4, 4, 3, 2, 3, 2, 3, 2), (2, 2) * 4]
    while len(three) < (12 if quick else 80):
        three.append(fmt(2, 10, 40) + fmt(2, 10, 40) + fmt(2, 10, 40) + fmt(2, 10, 40))
    add("fma", ["    K3<%d,%d,%d,%d,%d,%d,%d,%d>::go(seed, %d);\n" % (t + (n,)) for t in three], 3 if quick else 20)
    for N, wide in ((2, 12), (4, 5)):
        lines = []
        for e, f in [(2, 1), (3, 2), (5, 3), (8, 5), (11, 5), (11, 4), (12, 3), (10, 5), (9, 2), (8, 23), (11, 30), (5, 10), (14, 4)] + [fmt(2, 12, 45) for _ in range(4 if quick else 40)]:
            lines.append("    Any<%d,%d>::go(seed, %d);\n" % (e, f, n))
            lines.append("    Large<%d,%d>::go(seed, %d);\n" % (e, f, n // 2))
            if f < wide and e <= 10:
                lines.append("    Small<%d,%d>::go(seed, %d);\n" % (e, f, n // 2))
        add("dot%d_" % N, lines, 2 if quick else 10, "gens.hpp", dot_decl(N))
    quick_tier = tier == "quick"
    return shards, [Model("laws", "FPLaws", "FPLawsReal", env={} if quick_tier else {"BIG": "1"}, timeout=3000, workers=3, min_states=4000)]
