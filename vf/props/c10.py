"""C10: arithmetic, comparison and bitwise operators of fw_uint."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program
from vf import fwmachine

DECL = """
using namespace thls;
template<int W> inline void rels(std::string &o, F<W> x, F<W> y) {
  F<1> r[6] = {x < y, x <= y, x == y, x != y, x >= y, x > y};
  o += '['; for (int i = 0; i < 6; i++) { if (i) o += ','; o += S((long)raw(r[i])); } o += ']';
}
template<int W> inline void relsi(std::string &o, F<W> x, int y) {
  F<1> r[6] = {x < y, x <= y, x == y, x != y, x >= y, x > y};
  o += '['; for (int i = 0; i < 6; i++) { if (i) o += ','; o += S((long)raw(r[i])); } o += ']';
}
template<int W> struct A {
  static void regs() {
    OP2("add", W, W, W, "", I_NONE, x + y);
    OP2("sub", W, W, W, "", I_NONE, x - y);
    OP1("addi", W, W, "", I_ANY, x + n);
    OP1("subi", W, W, "", I_ANY, x - n);
    reg("cmp", W, {W, W}, "", I_NONE, [](const u128 *a, int n, std::string &o) -> bool {
      F<W> x = mk<W>(a[0]), y = mk<W>(a[1]); rels<W>(o, x, y); return raw(x) == a[0] && raw(y) == a[1]; });
    reg("cmpi", W, {W}, "", I_NONNEG, [](const u128 *a, int n, std::string &o) -> bool {
      F<W> x = mk<W>(a[0]); relsi<W>(o, x, n); return raw(x) == a[0]; });
    OP1("not", W, W, "", I_NONE, ~x);
    OP2("and", W, W, W, "", I_NONE, x & y);
    OP2("or", W, W, W, "", I_NONE, x | y);
    OP2("xor", W, W, W, "", I_NONE, x ^ y);
    OP1("andi", W, W, "", I_NONNEG, x & n);
    OP1("ori", W, W, "", I_FIT, x | n);
    OP1("xori", W, W, "", I_NONNEG, x ^ n);
    OP1("shr", W, W, "", I_SHIFT, x >> n);
    OP1("shl", W, W, "", I_SHIFT, x << n);
    OP3("adc", W, W, W, 1, "", I_NONE, add_with_cin(x, y, z));
    OP3("addsub", W, 1, W, W, "", I_NONE, add_sub(x, y, z));
    OP2("inc", W, W, 1, "", I_NONE, add_cin(x, y));
  }
};
template<int W, int O> struct M {
  static void regs() {
    OP2("mul", W + O, W, O, "", I_NONE, x * y);
    OP2("mul", W + O, W, O, "", I_NONE, full_mul(x, y));
  }
};
template<int W> struct Q { static void regs() { OP1("sqr", 2 * W, W, "", I_NONE, square(x)); } };
inline void one_bit() {
  OP2("or", 1, 1, 1, "", I_NONE, x || y);
  OP2("and", 1, 1, 1, "", I_NONE, x && y);
}
inline void all(uint64_t seed, long n) { for (size_t i = 0; i < ops.size(); i++) op_go(ops[i], seed, n); }
"""


def plan(seed, tier):
    r = rng(seed, "C10")
    quick = tier == "quick"
    n = 60 if quick else 1500
    shards = []
    hard = [1, 2, 31, 32, 33, 63, 64, 65, 127, 128]
    for k, part in enumerate(split(list(range(1, 129)), 14)):
        body = ""
        for w in part:
            body += "    A<%d>::regs();\n" % w
            if w <= 64:
                body += "    Q<%d>::regs();\n" % w
            os = set()
            if w < 128:
                os.add(r.randint(1, 128 - w))
                os.add(128 - w)
                if w < 64:
                    os.add(64 - w)
                    os.add(65 - w)
                if w < 32:
                    os.add(32 - w)
                    os.add(33 - w)
            for o in sorted(os):
                body += "    M<%d,%d>::regs();\n" % (w, o)
            if w == 1:
                body += "    one_bit();\n"
        body += "    all(seed, %d);\n" % n
        shards.append(Shard("fw%02d" % k, program(["fw.hpp"], DECL, body), spec="TraceFW"))
    shards += fwmachine.shards(seed, tier, r)
    return shards, []
