"""C16: compile-time generators and vectors, and the linear generator."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program

GENS = {"2y32": "make_quick_and_dirty<%du>::type", "minstd": "make_minstdrand0<%du>::type", "2y32m5": "make_lcg_mod_2y32m5<%du>::type"}
MOD = {"2y32": 1 << 32, "minstd": (1 << 31) - 1, "2y32m5": (1 << 32) - 5}


def vec(vals):
    if len(vals) == 1:
        return "Lf<%d>" % vals[0]
    h = len(vals) // 2
    return "Br<%s,%s >" % (vec(vals[:h]), vec(vals[h:]))


def lopsided(r, vals):
    if len(vals) == 1:
        return "Lf<%d>" % vals[0]
    h = r.randint(1, len(vals) - 1)
    return "Br<%s,%s >" % (lopsided(r, vals[:h]), lopsided(r, vals[h:]))


def plan(seed, tier):
    r = rng(seed, "C16")
    quick = tier == "quick"
    m = 1 if quick else 10
    items = []            # (group header, statement)

    def group(op, v, lines):
        items.append('    out.group("\\"op\\":\\"%s\\",\\"v\\":\\"%s\\",\\"p\\":[]");\n' % (op, v) + "".join("    %s;\n" % x for x in lines))

    dists = [0, 1, 2, 3, 4, 5, 7, 8, 19937, 1 << 24, (1 << 31) - 1, -1, -2, -3, -4, -5, -8, -19937, -(1 << 24), -(1 << 31) + 1, 255, 256, -255, -256]
    for name, tmpl in GENS.items():
        for _ in range(6 * m):
            s = r.choice([1, 2, MOD[name] - 1, r.randrange(1, MOD[name]), r.randrange(1, MOD[name]), r.randrange(1, 1 << 16)])
            x = s % MOD[name]
            G = tmpl % s
            ds = list(dists)
            if name == "2y32":
                ds.append(-(1 << 31))
            ds += [r.choice([1, -1]) * r.randrange(1, 1 << r.randint(1, 31)) for _ in range(20)]
            D = ["(-2147483647-1)" if d == -(1 << 31) else str(d) for d in ds]
            group("skip", name, ["skip_case<%s,%s>(%du)" % (G, d, x) for d in D])
            group("skip", name, ["skip2_case<%s,%d,%d>()" % (G, r.choice(dists), r.choice([1, -1]) * r.randrange(1 << r.randint(1, 31))) for _ in range(12)])
            vs = []
            for n in r.sample(range(1, 24), 6) + [r.randint(24, 80)]:
                k = r.random()
                vals = [(i + 1) % n for i in range(n)] if k < .4 else [r.randint(-9, 9) for _ in range(n)] if k < .7 else r.sample(range(-1000, 1000), n)
                vs.append("perm_case<%s,%s >()" % (G, vec(vals)))
            group("perm", name, vs)
    for _ in range(4 * m):
        u, rd, wr, sw, vi, re = [], [], [], [], [], []
        for n in list(range(1, 9)) + [r.randint(9, 40) for _ in range(5)]:
            vals = [r.randint(-4, 4 + n // 2) for _ in range(n)]
            V = vec(vals) if r.random() < .6 else lopsided(r, vals)
            u.append("unique_case<%s >()" % V)
            u.append("unique_case<%s >()" % vec([r.choice([-2147483647, 2147483647, 0, -1, 7]) for _ in range(min(n, 12))]))
            for i in sorted({0, n - 1, r.randrange(n)}):
                rd.append("read_case<%s,%d>()" % (V, i))
                wr.append("write_case<%s,%d,%d>()" % (V, i, r.randint(-99, 99)))
                sw.append("swap_case<%s,%d,%d>()" % (V, i, r.randrange(n)))
            vi.append("visit_case<%s >()" % V)
            re.append("reduce_case<%s >()" % V)
        for op, ls in (("unique", u), ("read", rd), ("write", wr), ("swap", sw), ("visit", vi), ("reduce", re)):
            group(op, "ct_vec", ls)
    group("rotation", "ct_vec", ["rotation_case<%d,%d>()" % (r.choice([0, 1, 1, n - 1, n, r.randint(0, 3 * n)]), n) for n in list(range(1, 34)) + [64, 100, 128]])
    group("fill", "ct_vec", ["fill_case<%d,%d>()" % (n, r.randint(-5, 5)) for n in list(range(0, 34)) + [64, 100, 127]])

    lut = [(16, 6, 1), (1, 1, 5), (2, 1, 0), (2, 2, 3), (3, 2, 1), (4, 3, 4294967295), (8, 4, 123456789), (5, 1, 77), (12, 7, 31), (31, 3, 9), (32, 4, 2),
           (33, 5, 3), (64, 4, 11)]
    while len(lut) < (26 if quick else 140):
        lut.append((r.randint(1, 40 if quick else 100), r.randint(1, 6), r.randrange(1 << 32)))
    if quick:
        lut += [(100, 3, 5), (128, 2, 7)]
    else:
        lut += [(128, 4, 7), (127, 6, 1)]
    runs, length = (6, 30) if quick else (20, 120)
    shards = []
    for k, part in enumerate(split(lut, 7 if quick else 40)):
        body = "".join("    lut_run<%d,%d,%du>(seed, %d, %d);\n" % (n, t, s, runs, length) for n, t, s in part)
        shards.append(Shard("lut%02d" % k, program(["ct.hpp"], "", body), spec="TraceCt"))
    for k, part in enumerate(split(items, 6 if quick else 30)):
        shards.append(Shard("ct%02d" % k, program(["ct.hpp"], "", "".join(part)), spec="TraceCt"))
    return shards, [Model("ct", "CtModel", "CtModel" if quick else "CtModelL", workers=2, min_states=30000)]
