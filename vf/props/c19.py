"""C19: programs mixing formats and operations."""
from vf.core import Shard, Model
from vf.fmts import rng
from vf.fpmachine import Machine, RELS, NAMED

ADDERS = {"dual": "add<%d,%d>(%s, %s)", "fast": "add_fast<%d,%d>(%s, %s)",
          "v1": "add_single<%d,%d>(%s, %s)", "small": "add_small<%d,%d>(%s, %s)", "v5": "add_single_v5<%d,%d>(%s, %s)"}


def build(r, name, fmts, ieee, count):
    """A machine over two registers of each format of fmts, one of each interchange format, and two flags."""
    m = Machine(name)
    fl = []
    for e, f in fmts:
        for _ in range(2):
            fl.append(m.reg(0, e, f, "fp_flopoco<%d,%d>" % (e, f)))
    ie = [m.reg(1, e, f, "fp_ieee<%d,%d>" % (e, f)) for e, f in ieee]
    dbl = m.reg(2, 11, 52, "double")
    fg = [m.reg(3, 0, 0, "Flag") for _ in range(2)]
    for i in fl + ie + [dbl]:
        m.load(i)
    F = {i: m.regs[i][1:3] for i in range(len(m.regs))}

    def dst(pred):
        c = [i for i in fl if pred(*F[i])]
        return r.choice(c) if c else None
    kinds = ["add"] * 5 + ["mul"] * 4 + ["div"] * 2 + ["div2", "sqr", "inv", "invf", "neg", "neg", "conv", "conv", "prom", "fma", "up", "down",
                                                   "rel", "rel", "sel", "sel", "fromie", "toie", "promie", "const", "todbl", "fromdbl",
                                                   "pred", "same", "copy", "mpfr"]
    tries, done = 0, set()
    while len(m.instr) < count and tries < count * 50:
        tries += 1
        k = r.choice(kinds)
        a, b, c = (r.choice(fl) for _ in range(3))
        (ea, fa), (eb, fb), (ec, fc) = F[a], F[b], F[c]
        n = len(m.instr)
        if k == "add":
            e, f = max(ea, eb), max(fa, fb)
            d = dst(lambda x, y: (x, y) == (e, f))
            adder = r.choice(["v1", "v5"] if e <= 3 else list(ADDERS))
            if d is not None:
                m.ins("add", [d], [a, b], "r%d = %s;" % (d, ADDERS[adder] % (e, f, "r%d" % a, "r%d" % b)))
        elif k == "mul" and ea == eb:
            d = dst(lambda x, y: x == ea)
            fn = r.choice(["mul<%d,%d>(r%d, r%d)", "mul_v1<%d,%d>(r%d, r%d, 0)"])
            m.ins("mul", [d], [a, b], "r%d = %s;" % (d, fn % (*F[d], a, b)))
        elif k == "sqr":
            d = dst(lambda x, y: x == ea)
            m.ins("sqr", [d], [a], "r%d = square<%d,%d>(r%d, 0);" % (d, *F[d], a))
        elif k in ("div", "div2"):
            d = dst(lambda x, y: (x, y) == (max(ea, eb), max(fa, fb)))
            if d is not None:
                m.ins("div", [d], [a, b], "r%d = %s<%d,%d>(r%d, r%d%s);" % (d, "div" if k == "div" else "div_v2", *F[d], a, b, "" if k == "div" else ", 0"))
        elif k == "inv":
            m.ins("inv", [dst(lambda x, y: (x, y) == (ea, fa))], [a], "")
            op, d, s, p, _ = m.instr.pop()
            m.ins("inv", d, s, "r%d = inv<%d,%d>(r%d);" % (d[0], ea, fa, a))
        elif k == "invf":
            d = dst(lambda x, y: x == ea and (y > 6 or fa <= 14))
            if d is not None and F[d][1] <= 44 and fa <= 44 and 3 <= ea <= 12:
                m.ins("invf", [d], [a], "r%d = inv_faithful<%d,%d>(r%d);" % (d, *F[d], a))
        elif k == "neg":
            d = r.choice(fl)
            m.ins("neg", [d], [a], "r%d = neg<%d,%d>(r%d);" % (d, *F[d], a))
        elif k == "conv":
            d = r.choice(fl)
            m.ins("conv", [d], [a], r.choice(["r%d = convert<%d,%d>(r%d);" % (d, *F[d], a), "convert(r%d, r%d);" % (d, a)]))
        elif k == "prom":
            d = dst(lambda x, y: x >= ea and y >= fa)
            m.ins("conv", [d], [a], "promote(r%d, r%d);" % (d, a))
        elif k == "fma":
            d = r.choice(fl)
            fm = max(fa + fb + 2, fc)
            if fa + fb <= 124 and 2 * fm + 8 <= 128 and max(ea, eb, ec) + 2 > 3:
                m.ins("fma", [d], [a, b, c], "r%d = fma<%d,%d>(r%d, r%d, r%d);" % (d, *F[d], a, b, c))
        elif k in ("up", "down"):
            d = dst(lambda x, y: (x, y) == (ea, fa))
            m.ins(k, [d], [a], "r%d = next%s(r%d);" % (d, k, a))
        elif k == "rel":
            q = r.choice(RELS)
            m.ins(q[0], [r.choice(fg)], [a, b], "")
            op, d, s, p, _ = m.instr.pop()
            m.ins(op, d, s, "r%d = %s(r%d, r%d).to_int();" % (d[0], q[1], a, b))
        elif k == "sel":
            x = r.choice([i for i in fl if F[i] == F[a]])
            d = r.choice([i for i in fl if F[i] == F[a]])
            f = r.choice(fg)
            m.ins("sel", [d], [f, a, x], "if (r%d) r%d = r%d; else r%d = r%d;" % (f, d, a, d, x))
        elif k == "copy":
            d = r.choice([i for i in fl if F[i] == F[a]])
            m.ins("copy", [d], [a], "r%d = r%d;" % (d, a))
        elif k == "fromie":
            i = r.choice(ie)
            d = dst(lambda x, y: x >= F[i][0] and y >= F[i][1])
            if d is not None:
                m.ins("conv", [d], [i], "%s(r%d, r%d);" % ("convert" if F[d] == F[i] else "promote", d, i))
        elif k == "toie":
            i = r.choice(ie)
            d = dst(lambda x, y: (x, y) == F[i])
            if d is not None:
                m.ins("conv", [i], [d], "convert(r%d, r%d);" % (i, d))
            else:
                d = dst(lambda x, y: x < F[i][0] and y <= F[i][1])
                if d is not None:
                    m.ins("prom", [i], [d], "promote(r%d, r%d);" % (i, d))
        elif k == "promie":
            i, j = r.choice(ie), r.choice(ie)
            if F[i][0] <= F[j][0] and F[i][1] <= F[j][1]:
                m.ins("prom", [j], [i], "promote(r%d, r%d);" % (j, i))
        elif k == "const":
            q = r.choice(NAMED)
            d = r.choice(fl + ie)
            m.ins("const", [d], [], "r%d = std::numeric_limits<%s >::%s();" % (d, m.regs[d][3], q), [q])
        elif k == "todbl":
            m.ins("conv", [dbl], [a], "r%d = r%d.to_double();" % (dbl, a)) if ea <= 11 and fa <= 52 else None
        elif k == "fromdbl":
            m.ins("fromd", [a], [dbl], "r%d = fp_flopoco<%d,%d>(r%d);" % (a, ea, fa, dbl))
        elif k == "mpfr":
            d = r.choice([i for i in fl if F[i] == F[a]])
            m.ins("conv", [d], [a], "{ mpfr_t t; mpfr_init2(t, %d); r%d.get(t); r%d = fp_flopoco<%d,%d>(t); mpfr_clear(t); }" % (fa + 1, a, d, ea, fa))
        elif k == "pred":
            q = r.choice(["isnan", "isinf", "iszero", "isnormal"])
            s = r.choice(fl + ie)
            f = r.choice(fg)
            m.ins(q, [f], [s], "r%d = r%d.%s().to_int();" % (f, s, q[:2] + "_" + q[2:]))
        elif k == "same":
            x = r.choice([i for i in fl if F[i] == F[a]])
            f = r.choice(fg)
            if r.random() < .5:
                m.ins("same", [f], [a, x], "r%d = r%d.equals(r%d).to_int();" % (f, a, x))
            else:
                m.ins("near", [f], [a, x], "r%d = r%d.within_1ulp(r%d).to_int();" % (f, a, x))
        if len(m.instr) > n:
            key = m.instr[-1]
            key = (key[0], tuple(key[1]), tuple(key[2]), key[4])
            if key in done:
                m.instr.pop()
            done.add(key)
    return m


def plan(seed, tier):
    quick = tier == "quick"
    r = rng(seed, "C19" + tier)
    fixed = [("half", [(5, 10), (8, 23), (8, 10), (5, 23)], [(5, 10), (8, 23)]),
             ("tiny", [(4, 2), (4, 3), (5, 2), (5, 3)], [(4, 3), (5, 3)]),
             ("wide", [(8, 23), (11, 52), (11, 23), (8, 52)], [(8, 23), (11, 52)]),
             ("bf", [(8, 7), (8, 23), (5, 10)], [(8, 7), (8, 23)]),
             ("small", [(3, 2), (3, 4), (4, 4), (4, 2)], [(3, 2), (4, 4)]),
             ("odd", [(6, 9), (6, 13), (7, 13), (9, 18)], [(6, 9), (9, 18)])]
    ms = []
    ms += fixed
    for i in range(4 if quick else 50):
        e = r.randint(4, 10)
        f = r.randint(1, 26)
        fm = {(e, f)}
        while len(fm) < 4:
            fm.add((max(4, min(11, r.choice([e, e, e + 1, e + 2, e - 1]))), max(1, r.choice([f, f + 1, f - 1, 2 * f, r.randint(1, 30)]))))
        fm = sorted(fm)
        x = max(a for a, _ in fm)
        y = max(b for _, b in fm)
        if (x, y) not in fm:
            fm[-1] = (x, y)
        ms.append(("r%d" % i, fm, [fm[0], (x, y)]))
    shards = []
    for n, fm, ie in ms:
        m = build(r, "mix_" + n, fm, ie, 70)
        shards.append(m.shard(["thls/tops/fp_flopoco_add_single_v5.hpp", "thls/tops/fp_flopoco_div_v2.hpp", "thls/tops/fp_flopoco_fma.hpp"], *((220, 60) if quick else (500, 120))))
    return shards, []
