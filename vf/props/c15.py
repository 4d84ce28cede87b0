"""C15: row heaps."""
from vf.core import Shard, Model
from vf.fmts import rng, split, program
from vf.props.c14 import Builder


class Rows(Builder):
    def num(self, w):
        n = self.inp(w)
        return self.emit({"k": "num", "n": n, "w": w}, "fw_uint_to_row_heap(mk<%d>(a[%d]))" % (w, n - 1), (w, 1))

    def join(self, a, b):
        return self.emit({"k": "join", "a": a + 1, "b": b + 1}, "h%d + h%d" % (a, b),
                         (max(self.info[a][0], self.info[b][0]), self.info[a][1] + self.info[b][1]))

    def addnum(self, a, w):
        n = self.inp(w)
        return self.emit({"k": "addnum", "a": a + 1, "n": n, "w": w}, "h%d + mk<%d>(a[%d])" % (a, w, n - 1),
                         (max(self.info[a][0], w), self.info[a][1] + 1))

    def compress(self, a):
        return self.emit({"k": "compress", "a": a + 1}, "compress(h%d)" % a, (self.info[a][0], 2))


def random_program(r, wide):
    b = Rows(r)
    top = 128 if wide else 12
    live = [b.num(r.randint(1, top)) for _ in range(r.randint(1, 3))]
    for _ in range(r.randint(3, 9)):
        k = r.random()
        if k < .35:
            x, y = r.choice(live), r.choice(live)
            if b.info[x][1] + b.info[y][1] <= 24:
                live.append(b.join(x, y))
        elif k < .75:
            live.append(b.addnum(r.choice(live), r.choice([b.info[live[-1]][0], r.randint(1, top)])))
        else:
            x = r.choice(live)
            if b.info[x][1] >= 2:
                live.append(b.compress(x))
    x = b.join(live[-1], live[0]) if b.info[live[-1]][1] <= 24 else live[-1]
    b.compress(x)
    return b


def plan(seed, tier):
    r = rng(seed, "C15")
    quick = tier == "quick"
    bs = []
    for w in (1, 2, 3, 8, 31, 32, 33, 64, 65, 127, 128):
        for d in range(2, 10 if w < 64 else 6):
            b = Rows(r)
            x = b.num(w)
            for _ in range(d - 1):
                x = b.addnum(x, w)
            b.compress(x)
            bs.append((b, "same"))
    for d in (10, 11, 12, 13, 16, 20, 27, 40):
        b = Rows(r)
        x = b.num(16)
        for _ in range(d - 1):
            x = b.addnum(x, r.choice([16, 16, 9, 17]))
        b.compress(x)
        bs.append((b, "deep"))
    for w in (1, 2):
        for d in (2, 3, 4, 5, 7):
            b = Rows(r)
            x = b.num(w)
            for i in range(d - 1):
                x = b.addnum(x, 1 + (i % 3))
            b.compress(x)
            bs.append((b, "small"))
    for _ in range(60 if quick else 800):
        bs.append((random_program(r, False), "prog"))
    for _ in range(40 if quick else 500):
        bs.append((random_program(r, True), "wide"))
    r.shuffle(bs)
    shards = []
    for k, part in enumerate(split(bs, 16 if quick else 100)):
        decl, body = "using namespace thls;\n", ""
        for i, (b, v) in enumerate(part):
            c, g = b.finish("rh", v, i)
            decl += c
            body += g
        body += "    for (size_t i = 0; i < progs.size(); i++) prog_go(progs[i], seed, %d);\n" % (200 if quick else 800)
        shards.append(Shard("rh%02d" % k, program(["heaps.hpp"], decl, body), spec="TraceHeap"))
    return shards, [Model("heap", "HeapModel", "HeapModel" if quick else "HeapModelL", workers=2, min_states=10000)]
