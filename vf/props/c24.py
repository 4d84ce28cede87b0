"""C24: fixed-point numbers."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program


def plan(seed, tier):
    r = rng(seed, "C24")
    quick = tier == "quick"
    n, k = (1500, 32) if quick else (4000, 120)
    L = []

    def width(hi):
        return r.choice([1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 63, 64, 65, hi, r.randint(1, hi), r.randint(1, hi)]) % (hi + 1) or 1

    def fmt(hi):
        w = width(hi)
        m = r.choice([0, 0, 0, r.randint(-9, 9)])
        return m, m - w + 1

    for _ in range(k):
        (a, b), (c, d) = fmt(64), fmt(64)
        L.append("pair_ops<%d,%d,%d,%d>(r, %d);" % (a, b, c, d, n))
        (a, b), (c, d) = fmt(100), fmt(100)
        while max(a, c) - min(b, d) + 1 > 128:
            (a, b), (c, d) = fmt(60), fmt(60)
        L.append("sub_ops<%d,%d,%d,%d>(r, %d);" % (a, b, c, d, n))
        L.append("same_ops<%d,%d>(r, %d);" % (fmt(128) + (n,)))
        L.append("scale<%d,%d,%d>(r, %d);" % ((r.randint(-20, 20),) + fmt(128) + (n // 8,)))
        a, b = fmt(128)
        L.append("trunc<%d,%d,%d>(r, %d);" % (r.randint(b, a), a, b, n // 4))
        L.append("drop<%d,%d,%d>(r, %d);" % (r.randint(b, a - 1) if a > b else a, a, b, n // 4))
        L.append("make<%d,%d>(r, %d);" % (fmt(64) + (n // 8,)))
        a, b = fmt(53)
        L.append("dbl<%d,%d>(r, %d);" % (a, b, n // 8))
    # rounding: small formats by any number of places, then drawn ones, also to a finer unit
    for w in range(2, 8):
        for lr in range(1, w):
            L.append("round<%d,0,%d>(r, %d);" % (lr - w + 1, 1 - w, n))
    for _ in range(3 * k):
        a, b = fmt(128)
        if a > b:
            d = r.choice([1, 1, 2, 2, 3, 4, r.randint(1, a - b), r.randint(1, a - b)])
            L.append("round<%d,%d,%d>(r, %d);" % (min(b + d, a), a, b, n))
    for _ in range(4):
        a, b = fmt(60)
        L.append("round<%d,%d,%d>(r, %d);" % (b - r.randint(0, 20), a, b, n // 4))
    for _ in range(k):
        lz = -r.choice([r.randint(2, 8), r.randint(4, 24), r.randint(20, 40)])
        ly = -r.choice([r.randint(1, 8), r.randint(4, 24), r.randint(20, 44)])
        L.append("step<%d,%d,%d,%d>(r, %d);" % (r.choice([0, 0, 1]), -r.randint(2, min(-2 * lz - ly - 1, 60)), lz, ly, n))
    for _ in range(k // 2):
        li = r.randint(2, 14)
        L.append("start<%d,%d>(r, %d);" % (-min(30, li + r.choice([0, 0, 0, 1, 5, 12])), -li, n // 2))
        L.append("direct<%d,%d>(r, %d);" % (-r.randint(2, 51), -r.randint(1, 13), n // 2))
        lr, ly = r.randint(2, 45), r.randint(1, 45)
        if lr > 7 or ly <= 13:
            L.append("newton<%d,%d>(r, %d);" % (-lr, -ly, n))
    for lr in range(2, 46):          # every result width, from narrow operands and others
        for ly in (r.choice([8, 9]), r.randint(10, 20), r.randint(7, 45)):
            if lr > 7 or ly <= 13:
                L.append("newton<%d,%d>(r, %d);" % (-lr, -ly, n // 10))
    for f in range(8, 15):           # where a reciprocal computed in double precision may round to the wrong side
        L.append("direct<%d,%d>(r, 20000);" % (-r.randint(53 - f, 51), -f))
    shards = []
    for i, part in enumerate(split(L, 6 if quick else 24)):
        shards.append(Shard("fix%02d" % i, program(["fix.hpp"], "", "    Rng r(seed + %d);\n" % i + "".join("    %s\n" % x for x in part)), spec="TraceFix"))
    return shards, [Model("laws", "FixModel", "FixModel", workers=2, min_states=7000)]
