"""C14: bit heaps."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program

DECL = "using namespace thls;\n"


def step(d):
    return "{" + ",".join('"%s":%s' % (k, v if isinstance(v, (int, str)) and not isinstance(v, str) else
                                       ('"%s"' % v if isinstance(v, str) else "[" + ",".join(map(str, v)) + "]"))
                          for k, v in d.items()) + "}"


class Builder:
    """A random program over heaps: every step makes one."""

    def __init__(self, r):
        self.r, self.steps, self.code, self.ws = r, [], [], []
        self.info = []        # (width, upper bound of the heights)

    def inp(self, w):
        self.ws.append(w)
        return len(self.ws)

    def emit(self, d, expr, info):
        i = len(self.info)
        self.steps.append(step(d))
        self.code.append("auto h%d = %s; obs(o, h%d, txt);" % (i, expr, i))
        self.info.append(info)
        return i

    def num(self, w):
        n = self.inp(w)
        return self.emit({"k": "num", "n": n, "w": w}, "fw_uint_to_bit_heap(mk<%d>(a[%d]))" % (w, n - 1), (w, 1))

    def raw(self, hs):
        # least significant column first in hs
        ns = [self.inp(h) for h in hs]
        expr = "bit_heap_root<%d>(mk<%d>(a[%d]))" % (hs[0], hs[0], ns[0] - 1)
        ty = "bit_heap_root<%d>" % hs[0]
        for h, n in list(zip(hs, ns))[1:]:
            ty2 = "bit_heap_link<%d,%s >" % (h, ty)
            expr = "%s(mk<%d>(a[%d]), %s)" % (ty2, h, n - 1, expr)
            ty = ty2
        return self.emit({"k": "raw", "h": hs, "n": ns}, expr, (len(hs), max(hs)))

    def merge(self, a, b):
        return self.emit({"k": "merge", "a": a + 1, "b": b + 1}, "merge_bit_heaps(h%d, h%d)" % (a, b),
                         (max(self.info[a][0], self.info[b][0]), self.info[a][1] + self.info[b][1]))

    def pad(self, a, w):
        return self.emit({"k": "pad", "a": a + 1, "w": w}, "pad_bit_heap<%d>(h%d)" % (w, a), (w, self.info[a][1]))

    def compress(self, a):
        return self.emit({"k": "compress", "a": a + 1}, "compress(h%d)" % a, (self.info[a][0], 2))

    def mul(self, split_, wx, wy):
        n, m = self.inp(wx), self.inp(wy)
        return self.emit({"k": "mul", "n": n, "m": m, "w": wx + wy, "s": split_},
                         "bit_heap_mul<%d>(mk<%d>(a[%d]), mk<%d>(a[%d]))" % (split_, wx, n - 1, wy, m - 1),
                         (wx + wy, (-(-wx // split_) * -(-wy // split_)) + 1))

    def finish(self, op, v, prog):
        head = '"op":"%s","v":"%s","prog":[%s]' % (op, v, ",".join(self.steps))
        cpp = "static void p%d(const u128 *a, std::string &o, bool txt) { (void)a; %s }\n" % (prog, " ".join(self.code))
        reg = "    { Prog p = {\"%s\", {%s}, p%d}; progs.push_back(p); }\n" % (
            head.replace('"', '\\"'), ",".join(map(str, self.ws)), prog)
        return cpp, reg


def random_program(r, wide):
    b = Builder(r)
    top = 40 if wide else 10
    live = []
    for _ in range(r.randint(2, 5)):
        if r.random() < .55:
            live.append(b.num(r.randint(1, top)))
        else:
            n = r.randint(1, 12 if wide else 6)
            live.append(b.raw([r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, r.randint(0, 14)]) for _ in range(n)]))
    for _ in range(r.randint(3, 7)):
        k = r.random()
        if k < .5:
            x, y = r.choice(live), r.choice(live)
            if b.info[x][1] + b.info[y][1] <= 36:
                live.append(b.merge(x, y))
        elif k < .7:
            x = r.choice(live)
            if b.info[x][0] < 100:
                live.append(b.pad(x, b.info[x][0] + r.choice([0, 1, 2, 5])))
        else:
            live.append(b.compress(r.choice(live)))
    b.compress(live[-1])
    x = b.merge(live[0], live[-1]) if b.info[live[0]][1] + b.info[live[-1]][1] <= 36 else live[-1]
    b.compress(x)
    return b


def plan(seed, tier):
    r = rng(seed, "C14")
    quick = tier == "quick"
    bs = []
    # every height of a column, alone and under another one
    for hs in ([[h] for h in range(0, 13)] + [[h, g] for h in range(0, 8) for g in (0, 1, 2, 3, 5)] + [[3, 3, 3], [6, 0, 2], [2, 2, 2, 2],
               [9, 8, 7, 6], [128], [127, 128], [1] * 64, [3] * 40, [0] * 20 + [4], [16] * 8, [5, 0, 0, 0, 11]]):
        b = Builder(r)
        x = b.raw(hs)
        b.compress(x)
        b.compress(b.pad(x, len(hs) + 3))
        bs.append((b, "raw"))
    for w in (1, 2, 3, 31, 32, 33, 64, 65, 127, 128):
        b = Builder(r)
        x = b.num(w)
        y = b.num(max(1, w - 1))
        z = b.merge(x, y)
        z = b.merge(z, x)
        b.compress(z)
        bs.append((b, "num"))
    for _ in range(40 if quick else 600):
        bs.append((random_program(r, False), "prog"))
    for _ in range(16 if quick else 240):
        bs.append((random_program(r, True), "wide"))
    ms = [(1, 1, 1), (1, 2, 2), (1, 3, 4), (2, 3, 3), (2, 5, 1), (2, 1, 5), (3, 9, 9), (4, 13, 7), (7, 13, 14), (8, 16, 16), (8, 17, 15), (5, 4, 4),
          (16, 32, 32), (17, 24, 53), (17, 53, 53), (16, 64, 64), (4, 8, 8), (3, 4, 11), (31, 64, 33)]
    for _ in range(14 if quick else 200):
        s = r.randint(1, 20)
        ms.append((s, r.randint(1, min(64, 6 * s)), r.randint(1, min(64, 6 * s))))
    for s, x, y in ms:
        b = Builder(r)
        m = b.mul(s, x, y)
        c = b.compress(m)
        if b.info[m][1] <= 20:
            n = b.num(r.randint(1, x + y))
            b.compress(b.merge(n, m))
        bs.append((b, "mul"))
    shards = []
    r.shuffle(bs)
    for k, part in enumerate(split(bs, 24 if quick else 120)):
        decl, body = DECL, ""
        for i, (b, v) in enumerate(part):
            c, g = b.finish("bh", v, i)
            decl += c
            body += g
        body += "    for (size_t i = 0; i < progs.size(); i++) prog_go(progs[i], seed, %d);\n" % (150 if quick else 600)
        shards.append(Shard("bh%02d" % k, "#define VERIF_BITS 1\n" + program(["heaps.hpp"], decl, body), spec="TraceHeap"))
    return shards, [Model("heap", "HeapModel", "HeapModel" if quick else "HeapModelL", workers=2, min_states=10000)]
