"""C17: the numeric policies."""
from vf.core import Shard, Model
from vf.fmts import rng, program
from vf.fpmachine import Machine
from vf.props.c18 import DECL as SOFT

PRE = """
#define SOFTFLOAT 1
template<int E, int F> inline void putr(const fp_flopoco_wrapper<E, F> &x) { putr(x.raw); }
template<int E, int F> inline void putr(const fp_ieee_on_flopoco_wrapper<E, F> &x) { putr(x.raw); }
template<int E, int F> inline void fill(Rng &r, fp_flopoco_wrapper<E, F> &x) { fill(r, x.raw); }
template<int E, int F> inline void fill(Rng &r, fp_ieee_on_flopoco_wrapper<E, F> &x) { fill(r, x.raw); }
"""
PRESOFT = """
inline void putr(const float32_t &x) { float f; memcpy(&f, &x, 4); putr(f); }
inline void putr(const float64_t &x) { double f; memcpy(&f, &x, 8); putr(f); }
inline void fill(Rng &r, float32_t &x) { float f; fill(r, f); memcpy(&x, &f, 4); }
inline void fill(Rng &r, float64_t &x) { double f; fill(r, f); memcpy(&x, &f, 8); }
"""
OPS = [("add", "+"), ("mul", "*"), ("div", "/")]
RELS = [("lt", "<"), ("le", "<="), ("eq", "=="), ("ne", "!="), ("ge", ">="), ("gt", ">")]


def expr(r, depth, leaves):
    """A random expression: (C++ text, postfix code)."""
    if depth == 0 or (depth < 3 and r.random() < .3):
        k = r.randrange(len(leaves))
        return "r%d" % leaves[k], ["x%d" % (k + 1)]
    o, c = r.choice(OPS)
    a, x = expr(r, depth - 1, leaves)
    b, y = expr(r, depth - 1, leaves)
    return "(%s %s %s)" % (a, c, b), x + y + [o]


def operators(m, r, regs, flags, policy, e, f, compound, count):
    """Operators, expressions and exchange of registers of one policy type."""
    t = m.regs[regs[0]][3]
    pr = f + 1
    for i in regs:
        m.load(i)
    for op, c in OPS:
        for _ in range(count):
            d, a, b = (r.choice(regs) for _ in range(3))
            m.ins(op, [d], [a, b], "r%d = r%d %s r%d;" % (d, a, c, b))
        d, a, b = (r.choice(regs) for _ in range(3))
        m.ins(op, [d], [a, b], "{ mpfr_t p, q, s; mpfr_init2(p, %d); mpfr_init2(q, %d); mpfr_init2(s, %d); typedef %s P; P::to_mpfr(p, r%d); P::to_mpfr(q, r%d);"
              " P::ref_%s(s, p, q); r%d = P::from_mpfr(s, true); mpfr_clear(p); mpfr_clear(q); mpfr_clear(s); }" % (pr, pr, pr, policy, a, b, op, d))
    for op, c in compound:
        for _ in range(3):
            a, b = (r.choice(regs) for _ in range(2))
            d = r.choice([x for x in regs if x != a])
            m.ins(op, [a], [a, b], "r%d %s r%d;" % (a, c, b))
            m.ins(op, [a, d], [a, b], "r%d = (r%d %s r%d);" % (d, a, c, b))
    for k in range(6):
        lv = [r.choice(regs) for _ in range(3)]
        s, code = expr(r, 3 if k < 4 else 2, lv)
        if len(code) == 1:
            continue
        d = r.choice(regs)
        m.ins("expr", [d], lv, "r%d = %s;" % (d, s), code)
    for op, c in RELS:
        for _ in range(2):
            a, b = (r.choice(regs) for _ in range(2))
            m.ins(op, [r.choice(flags)], [a, b], "")
            o, d, s, p, _x = m.instr.pop()
            m.ins(o, d, s, "r%d = (bool)(r%d %s r%d);" % (d[0], a, c, b))
    for _ in range(3):
        fl, d, a, b = r.choice(flags), r.choice(regs), r.choice(regs), r.choice(regs)
        m.ins("sel", [d], [fl, a, b], "r%d = r%d ? r%d : r%d;" % (d, fl, a, b))
        m.ins("copy", [d], [a], r.choice(["r%d = r%d;", "r%d = %s(r%%d);" % (d, t) if False else "r%d = r%d;"]) % (d, a))
    a, d = r.choice(regs), r.choice(regs)
    m.ins("conv", [d], [a], "{ mpfr_t p; mpfr_init2(p, %d); typedef %s P; P::to_mpfr(p, r%d); r%d = P::from_mpfr(p, %s); mpfr_clear(p); }"
          % (pr, policy, a, d, "true"))


def build(r, name, e, f):
    m = Machine(name)
    m.pre = PRE
    w = [m.reg(0, e, f, "fp_flopoco_wrapper<%d,%d>" % (e, f)) for _ in range(4)]
    i = [m.reg(1, e, f, "fp_ieee_on_flopoco_wrapper<%d,%d>" % (e, f)) for _ in range(4)]
    fg = [m.reg(3, 0, 0, "Flag") for _ in range(2)]
    operators(m, r, w, fg, "policy_flopoco<%d,%d>" % (e, f), e, f, [("mul", "*="), ("add", "+=")], 4)
    operators(m, r, i, fg, "policy_ieee_on_flopoco<%d,%d>" % (e, f), e, f, [], 4)
    for q in ["min", "max", "lowest", "infinity", "quiet_NaN", "denorm_min"]:
        for k in (w, i):
            d = r.choice(k)
            m.ins("const", [d], [], "r%d = std::numeric_limits<%s >::%s();" % (d, m.regs[d][3], q), [q])
    if (e, f) == (8, 23):
        fl = [m.reg(1, 8, 23, "float") for _ in range(2)]
        for x in fl:
            m.load(x)
            for y in w[:2]:
                m.ins("conv", [x], [y], "r%d = to<float>(r%d);" % (x, y))
                m.ins("conv", [y], [x], "r%d = to<%s >(r%d);" % (y, m.regs[y][3], x))
        m.ins("copy", [w[0]], [w[1]], "r%d = to<%s >(r%d);" % (w[0], m.regs[w[0]][3], w[1]))
    return m


def soft(r, name):
    m = Machine(name)
    m.pre = PRESOFT
    fg = [m.reg(3, 0, 0, "Flag") for _ in range(2)]
    for e, f, n, p, s, q in [(8, 23, "float", "native_single", "float32_t", "softfloat_single"), (11, 52, "double", "native_double", "float64_t", "softfloat_double")]:
        a = [m.reg(2, e, f, n) for _ in range(3)]
        b = [m.reg(2, e, f, s) for _ in range(3)]
        operators(m, r, a, fg, "policy_" + p, e, f, [("mul", "*="), ("add", "+="), ("div", "/=")], 2)
        operators(m, r, b, fg, "policy_" + q, e, f, [], 4)
        if n == "double":
            d, x, y = r.choice(a), r.choice(a), r.choice(a)
            for op, _c in OPS:
                m.ins(op, [d], [x, y], "{ mpfr_t p, q, s; mpfr_init2(p, 53); mpfr_init2(q, 53); mpfr_init2(s, 53); typedef policy_concept P; P::to_mpfr(p, r%d);"
                      " P::to_mpfr(q, r%d); P::ref_%s(s, p, q); r%d = P::from_mpfr(s, true); mpfr_clear(p); mpfr_clear(q); mpfr_clear(s); }" % (x, y, op, d))
            m.ins("conv", [d], [2], "r%d = to<double>(r2);" % d)
            m.ins("conv", [2], [d], "r2 = to<float,(convert_policy)7>(r%d);" % d)
        for x, y in zip(a, b):
            m.ins("copy", [x], [y], "memcpy(&r%d, &r%d, sizeof r%d);" % (x, y, x))
            m.ins("copy", [y], [x], "memcpy(&r%d, &r%d, sizeof r%d);" % (y, x, x))
    return m


def plan(seed, tier):
    quick = tier == "quick"
    r = rng(seed, "C17" + tier)
    fm = [(8, 23), (5, 10), (8, 7), (11, 52), (4, 3), (6, 9)]
    for _ in range(4 if quick else 40):
        fm.append((r.randint(4, 10), r.randint(1, 40)))
    shards = []
    hd = ["thls/tops/policy_flopoco.hpp", "thls/tops/policy_ieee_on_flopoco.hpp"]
    size = (200, 60) if quick else (900, 120)
    for k, (e, f) in enumerate(fm):
        shards.append(build(r, "pol%d_%d_%d" % (k, e, f), e, f).shard(hd, *size))
    for k in range(2 if quick else 10):
        shards.append(soft(r, "ieee%d" % k).shard(["thls/tops/policy_softfloat.hpp"], *size))
    n = 4000 if quick else 40000
    for name, t, u, p, e, f in [("native_single", "float", "uint32_t", "policy_native_single", 8, 23),
                                ("native_double", "double", "uint64_t", "policy_native_double", 11, 52),
                                ("concept", "double", "uint64_t", "policy_concept", 11, 52),
                                ("soft_single", "float32_t", "uint32_t", "policy_softfloat_single", 8, 23),
                                ("soft_double", "float64_t", "uint64_t", "policy_softfloat_double", 11, 52)]:
        shards.append(Shard("ex_" + name, program(["ieee.hpp"], SOFT.replace('\\"softfloat\\"', '\\"%s\\"' % name), "    SF<%s,%s,thls::%s,%d,%d>::exchange(seed, %d);\n"
                                                  % (t, u, p, e, f, n))))
    return shards, []
