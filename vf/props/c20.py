"""C20: unspecified bits never influence a result (lockstep runs)."""
from vf.fmts import rng
from vf.props.c19 import build

HEAD = ["thls/tops/fp_flopoco_add_single_v5.hpp", "thls/tops/fp_flopoco_div_v2.hpp", "thls/tops/fp_flopoco_fma.hpp"]


def plan(seed, tier):
    quick = tier == "quick"
    r = rng(seed, "C20" + tier)
    ms = [("half", [(5, 10), (8, 23), (8, 10), (5, 23)], [(5, 10), (8, 23)]),
          ("tiny", [(4, 2), (4, 3), (5, 2), (5, 3)], [(4, 3), (5, 3)]),
          ("wide", [(8, 23), (11, 52), (11, 23), (8, 52)], [(8, 23), (11, 52)]),
          ("small", [(3, 2), (3, 4), (4, 4), (4, 2)], [(3, 2), (4, 4)]),
          ("min", [(4, 1), (5, 1), (5, 2), (4, 2)], [(4, 1), (5, 2)])]
    for i in range(6 if quick else 60):
        e = r.randint(4, 10)
        f = r.randint(1, 30)
        fm = {(e, f)}
        while len(fm) < 4:
            fm.add((max(4, min(11, r.choice([e, e, e + 1, e + 2, e - 1]))), max(1, r.choice([f, f + 1, f - 1, 2 * f, r.randint(1, 30)]))))
        fm = sorted(fm)
        x = max(a for a, _ in fm)
        y = max(b for _, b in fm)
        if (x, y) not in fm:
            fm[-1] = (x, y)
        ms.append(("r%d" % i, fm, [fm[0], (x, y)]))
    shards = []
    for n, fm, ie in ms:
        m = build(r, "twin_" + n, fm, ie, 110)
        shards.append(m.twins(HEAD, *((560, 40) if quick else (1200, 80))))
    return shards, []
