"""C11: bit fields, concatenation, selection, tables and exchange of fw_uint."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program
from vf import fwmachine

DECL = """
using namespace thls;
template<int W, int HI, int LO> struct Get { static void regs() {
  OP1("get", HI - LO + 1, W, S(HI) + "," + S(LO), I_NONE, (get_bits<HI, LO>(x))); } };
template<int W, int B> struct Bit1 { static void regs() {
  OP1("get", 1, W, S(B) + "," + S(B), I_NONE, (get_bit<B>(x))); } };
template<int A, int B> struct Cat2 { static void regs() {
  OP2("cat", A + B, A, B, "", I_NONE, concat(x, y));
  // the fields of a concatenation are its operands
  OP2("cat", A + B, A, B, "", I_NONE, (concat(get_bits<A + B - 1, B>(concat(x, y)), get_bits<B - 1, 0>(concat(x, y))))); } };
template<int A, int B, int C> struct Cat3 { static void regs() { OP3("cat", A + B + C, A, B, C, "", I_NONE, concat(x, y, z)); } };
template<int A, int B, int C, int D> struct Cat4 { static void regs() {
  reg("cat", A + B + C + D, {A, B, C, D}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool {
    F<A> x = mk<A>(a[0]); F<B> y = mk<B>(a[1]); F<C> z = mk<C>(a[2]); F<D> t = mk<D>(a[3]);
    F<A + B + C + D> r = concat(x, y, z, t); put(o, r);
    return raw(x) == a[0] && raw(y) == a[1] && raw(z) == a[2] && raw(t) == a[3]; }); } };
template<int W, int N, int HI, int LO> struct CatArr { static void regs() {
  reg("carr", (HI - LO + 1) * W, std::vector<int>(N, W), S(HI) + "," + S(LO), I_NONE, [](const u128 *a, int n, std::string &o) -> bool {
    F<W> v[N]; for (int i = 0; i < N; i++) v[i] = mk<W>(a[i]);
    F<(HI - LO + 1) * W> r = concat_array<HI, LO>(v); put(o, r);
    bool same = true; for (int i = 0; i < N; i++) same = same && raw(v[i]) == a[i];
    return same; }); } };
template<int W, int P> struct Pad { static void regs() {
  OP1("zhi", W + P, W, S(P), I_NONE, zpad_hi<P>(x));
  OP1("ohi", W + P, W, S(P), I_NONE, opad_hi<P>(x));
  OP1("zlo", W + P, W, S(P), I_NONE, zpad_lo<P>(x));
  OP1("olo", W + P, W, S(P), I_NONE, opad_lo<P>(x));
  OP1("ext", W + P, W, S(P), I_NONE, extu<W + P>(x)); } };
template<int W, int B> struct Ends { static void regs() {
  OP1("takel", B, W, S(B), I_NONE, take_lsbs<B>(x));
  OP1("dropl", W - B, W, S(B), I_NONE, drop_lsbs<B>(x));
  OP1("takem", B, W, S(B), I_NONE, take_msbs<B>(x));
  OP1("dropm", W - B, W, S(B), I_NONE, drop_msbs<B>(x)); } };
template<int W, int B> struct Rsz { static void regs() { OP1("rsz", B, W, "", I_NONE, resize<B>(x)); } };
template<int W, int A> struct Lut { static void regs() {
    std::string p; for (int i = 0; i < (1 << A); i++) p += (i ? "," : "") + S(init(i));
    OP1("lut", W, A, p, I_NONE, table()(x)); }
  static int init(int i) { return (int)(((unsigned)(i * 2654435761u + 12345u) >> 3) & mask128(W > 20 ? 20 : W)); }
  static const lut<W, A> &table() { static lut<W, A> t(init); return t; } };
template<int W> struct Sel { static void regs() {
  OP3("sel", W, 1, W, W, "", I_NONE, select(x, y, z));
  OP3("sel", W, 1, W, W, "", I_NONE, select(x.to_bool(), y, z));
#define A_(i) F<1> c##i = mk<1>(a[2 * i]); F<W> v##i = mk<W>(a[2 * i + 1]);
  reg("sel", W, {1, W, 1, W, W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool {
    A_(0) A_(1) F<W> d = mk<W>(a[4]); F<W> r = select(c0, v0, c1, v1, d); put(o, r);
    return raw(v0) == a[1] && raw(d) == a[4]; });
  reg("sel", W, {1, W, 1, W, 1, W, W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool {
    A_(0) A_(1) A_(2) F<W> d = mk<W>(a[6]); F<W> r = select(c0, v0, c1, v1, c2, v2, d); put(o, r); return true; });
  reg("sel", W, {1, W, 1, W, 1, W, 1, W, W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool {
    A_(0) A_(1) A_(2) A_(3) F<W> d = mk<W>(a[8]); F<W> r = select(c0, v0, c1, v1, c2, v2, c3, v3, d); put(o, r); return true; });
  reg("sel", W, {1, W, 1, W, 1, W, 1, W, 1, W, W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool {
    A_(0) A_(1) A_(2) A_(3) A_(4) F<W> d = mk<W>(a[10]);
    F<W> r = select(c0, v0, c1, v1, c2, v2, c3, v3, c4, v4, d); put(o, r); return true; });
  reg("sel", W, {1, W, 1, W, 1, W, 1, W, 1, W, 1, W, W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool {
    A_(0) A_(1) A_(2) A_(3) A_(4) A_(5) F<W> d = mk<W>(a[12]);
    F<W> r = select(c0, v0, c1, v1, c2, v2, c3, v3, c4, v4, c5, v5, d); put(o, r); return true; });
  reg("sel", W, {1, W, 1, W, 1, W, 1, W, 1, W, 1, W, W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool {
    A_(0) A_(1) A_(2) A_(3) A_(4) A_(5) F<W> d = mk<W>(a[12]);
    F<W> r = select(a[0] == 1, v0, a[2] == 1, v1, a[4] == 1, v2, a[6] == 1, v3, a[8] == 1, v4, a[10] == 1, v5, d); put(o, r); return true; });
#undef A_
} };
struct Z { mpz_t v; Z() { mpz_init(v); } ~Z() { mpz_clear(v); } };
inline void to_z(mpz_t z, u128 x) { mpz_set_ui(z, (unsigned long)(x >> 64)); mpz_mul_2exp(z, z, 64); mpz_t t; mpz_init_set_ui(t, (unsigned long)x); mpz_add(z, z, t); mpz_clear(t); }
inline u128 of_z(mpz_t z) { mpz_t t; mpz_init(t); mpz_tdiv_q_2exp(t, z, 64); u128 r = (u128)mpz_get_ui(t) << 64; mpz_tdiv_r_2exp(t, z, 64); r |= mpz_get_ui(t); mpz_clear(t); return r; }

template<int W, bool OK = (W <= 64)> struct Texts { static void go(Rng &) {} };
inline std::string hd(const char *op, int w) { return std::string("\\"op\\":\\"") + op + "\\",\\"v\\":\\"fw_uint\\",\\"w\\":" + S(w) + ",\\"ws\\":[" + S(w) + "],\\"p\\":[]"; }
template<class B> inline void rec_text(const std::string &t, B body) {
  std::string res; int rc = guarded([&]() { body(res); });
  if (rc) res = rc == 1 ? "[-1]" : "[-2]";
  out.begin_case(); std::string x; put_text(x, t); out.line += x; out.sep(); out.line += res; out.sep(); out.num(1); out.end_case();
}
template<int W> struct Texts<W, true> { static void go(Rng &r) {
  out.group(hd("bin", W));
  for (int i = 0; i < 24; i++) {
    u128 x = frac_pattern(r, W);
    std::string t = "0b"; int at = r.below(W + 1), at2 = r.below(W + 1);
    for (int k = W - 1; k >= 0; k--) { t += ((x >> k) & 1) ? '1' : '0'; if (k && (k == at || k == at2)) t += '_'; }
    if (i % 6 == 4) switch (r.below(4)) {
      case 0: t += r.coin() ? '1' : '0'; break;                       // a digit too many
      case 1: if (t.size() > 2) t.erase(t.size() - 1); break;         // one too few
      case 2: t[2 + r.below(t.size() - 2)] = r.coin() ? '2' : 'x'; break;
      default: t += '_'; }
    rec_text(t, [&](std::string &o) { F<W> z(t.c_str()); put(o, z); });
  }
  out.group(hd("dec", W));
  for (int i = 0; i < 16; i++) {
    u128 x = frac_pattern(r, W); std::string t;
    u128 y = x; do { t = char('0' + (int)(y % 10)) + t; y /= 10; } while (y);
    rec_text(t, [&](std::string &o) { F<W> z(t.c_str()); put(o, z); });
  }
} };
template<int W> struct Io { static void go(Rng &r) {
  out.group(hd("mpzin", W));
  for (int i = 0; i < 24; i++) {
    u128 x = frac_pattern(r, W);
    if (W < 128 && i % 6 == 5) x = r.coin() ? (u128)1 << W : (frac_pattern(r, W) | ((u128)1 << (W + r.below(128 - W))));
    std::string res;
    int rc = guarded([&]() { Z z; to_z(z.v, x); F<W> y(z.v); put(res, y); if (of_z(z.v) != x) res = "[-3]"; });
    if (rc) res = rc == 1 ? "[-1]" : "[-2]";
    out.begin_case(); out.nat(x); out.sep(); out.line += res; out.sep(); out.num(1); out.end_case();
  }
  out.group(hd("dbl", W));
  for (int i = 0; i < 16; i++) {
    int top = r.below(W) + 1;                         // representable: 53 bits from bit top-1 down
    u128 x = frac_pattern(r, top > 53 ? 53 : top); if (top > 53) x <<= top - 53;
    std::string res;
    int rc = guarded([&]() { double d = to_double_approx(mk<W>(x)); uint64_t b; memcpy(&b, &d, 8);
      res = "[" + S(b >> 63) + "," + S((b >> 52) & 2047) + ","; put_nat(res, b & (((uint64_t)1 << 52) - 1)); res += "]"; });
    if (rc) res = "[9,0,[]]";
    out.begin_case(); out.nat(x); out.sep(); out.line += res; out.sep(); out.num(1); out.end_case();
  }
} };
struct Gen { Rng *r; uint32_t operator()() { return (uint32_t)(r->next() >> 13); } };
template<int W> struct B {
  static void regs() {
    OP1("takel", 1, W, "1", I_NONE, take_lsb(x));
    OP1("dropl", W - 1, W, "1", I_NONE, drop_lsb(x));
    OP1("takem", 1, W, "1", I_NONE, take_msb(x));
    OP1("dropm", W - 1, W, "1", I_NONE, drop_msb(x));
    OP1("copy", W, 1, "", I_NONE, copybit<W>(x));
    reg("zg", W, {}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { F<W> r = zg<W>(); put(o, r); return true; });
    reg("og", W, {}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { F<W> r = og<W>(); put(o, r); return true; });
    reg("cg", W, {}, "", I_FIT, [](const u128 *a, int n, std::string &o) -> bool { F<W> r = cg<W>(n); put(o, r); return true; });
    reg("cg", W, {}, "", I_FIT, [](const u128 *a, int n, std::string &o) -> bool { F<W> r(n); put(o, r); return true; });
    reg("zg", W, {}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { F<W> r; put(o, r); return true; });
    reg("text", W, {W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { put_text(o, mk<W>(a[0]).to_string()); return true; });
    reg("text", W, {W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { std::ostringstream s; s << mk<W>(a[0]); put_text(o, s.str()); return true; });
    reg("num", W, {W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { Z z; mk<W>(a[0]).to_mpz_t(z.v); put_nat(o, of_z(z.v)); return true; });
    reg("num", W, {W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { F<W> x = mk<W>(a[0]); F<W> y(x), z; z = y; put(o, z); return raw(x) == a[0]; });
    reg("num", W, {W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { put(o, checked_cast<W>(mk<W>(a[0]))); return true; });
    // machine words, as far as the value fits them
    reg("num", W, {W < 64 ? W : 64}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { F<W> r = F<W>::from_uint64((uint64_t)a[0]); put(o, r); return true; });
    reg("num", W, {W < 64 ? W : 64}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { put_nat(o, mk<W>(a[0]).to_uint64()); return true; });
    reg("num", W, {W < 31 ? W : 31}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { put_nat(o, (u128)(long)mk<W>(a[0]).to_int()); return true; });
    reg("rand", W, {}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { static Rng g(W); Gen q = {&g};
      F<W> r = random_fw_uint<W>(q); put(o, r); return true; });
    reg("rand", W, {}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { static Rng g(W + 1000); Gen q = {&g};
      F<W> r; randomise(r, q); put(o, r); return true; });
  }
};
template<int W> struct U32 { static void regs() {
    reg("num", W, {W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool { put_nat(o, mk<W>(a[0]).to_uint32()); return true; }); } };
inline void all(uint64_t seed, long n) { for (size_t i = 0; i < ops.size(); i++) op_go(ops[i], seed, n); }
"""

SELW = [1, 2, 8, 31, 32, 33, 53, 64, 65, 100, 128]


def plan(seed, tier):
    r = rng(seed, "C11")
    quick = tier == "quick"
    n = 40 if quick else 800
    reps = 2 if quick else 5
    shards = []
    for k, part in enumerate(split(list(range(1, 129)), 16)):
        body = "    Rng io(seed * 31 + %d);\n" % k
        for w in part:
            lines = ["B<%d>::regs();" % w, "Io<%d>::go(io);" % w, "Texts<%d>::go(io);" % w]
            if w <= 32:
                lines.append("U32<%d>::regs();" % w)
            fields = {(w - 1, 0), (w - 1, w - 1), (0, 0)}
            for b in (31, 32, 63, 64):
                if w > b + 1:
                    fields.add((b + r.randint(0, w - b - 1), b - r.randint(0, min(b, 5))))
                    fields.add((w - 1, b))
                    fields.add((b, 0))
            for _ in range(2 * reps):
                hi = r.randrange(w)
                fields.add((hi, r.randint(0, hi)))
            if w <= 4:
                fields |= {(h, l) for h in range(w) for l in range(h + 1)}
            for hi, lo in sorted(fields):
                lines.append("Get<%d,%d,%d>::regs();" % (w, hi, lo))
            for b in sorted({0, w - 1, r.randrange(w)}):
                lines.append("Bit1<%d,%d>::regs();" % (w, b))
            for q in sorted({1, w, w - 1, max(0, w - 32), max(0, w - 64), r.randint(0, w), r.randint(0, w)} | {0}):
                if 0 <= q <= w:
                    lines.append("Ends<%d,%d>::regs();" % (w, q))
            tg = {128, w, 1, 32, 33, 64, 65, r.randint(1, 128), r.randint(1, w)}
            for q in sorted(tg):
                lines.append("Rsz<%d,%d>::regs();" % (w, q))
            if w < 128:
                cs = {128 - w, r.randint(1, 128 - w)} | {b - w for b in (32, 33, 64, 65) if b > w}
                for o in sorted(cs):
                    lines.append("Cat2<%d,%d>::regs();" % (w, o))
                for o in sorted({0, 128 - w, r.randint(0, 128 - w)} | {b - w for b in (32, 33, 64, 65) if b > w}):
                    lines.append("Pad<%d,%d>::regs();" % (w, o))
            if w <= 126:
                b = r.randint(1, 127 - w)
                c = r.randint(1, 128 - w - b)
                lines.append("Cat3<%d,%d,%d>::regs();" % (w, b, c))
                lines.append("Cat3<%d,%d,%d>::regs();" % (w, b, 128 - w - b))
            if w <= 120:
                t = sorted(r.sample(range(1, 128 - w), 2))
                lines.append("Cat4<%d,%d,%d,%d>::regs();" % (w, t[0], t[1] - t[0], r.randint(1, 128 - w - t[1])))
            if w <= 64:
                m = min(8, 128 // w)
                num = r.randint(2, m)
                lo = r.randrange(num)
                lines.append("CatArr<%d,%d,%d,%d>::regs();" % (w, num, num - 1, 0))
                lines.append("CatArr<%d,%d,%d,%d>::regs();" % (w, num, r.randint(lo, num - 1), lo))
            if w in SELW:
                lines.append("Sel<%d>::regs();" % w)
            if w % 5 == 1 or w < 5:
                lines.append("Lut<%d,%d>::regs();" % (w, r.randint(1, 6)))
            body += "".join("    %s\n" % x for x in lines)
        body += "    all(seed, %d);\n" % n
        shards.append(Shard("bits%02d" % k, program(["fw.hpp", "sstream", "gmp.h"], DECL, body).replace('"sstream"', "<sstream>").replace('"gmp.h"', "<gmp.h>"), spec="TraceFW"))
    shards += fwmachine.shards(seed + 1000, tier, rng(seed, "C11m"))
    return shards, []
