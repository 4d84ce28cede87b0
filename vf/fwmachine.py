"""Random programs on a file of fixed-width registers (the machine of FWUint.tla)."""
from vf.core import Shard
from vf.fmts import program

DECL = """
using namespace thls;
struct I { const char *head; int ints, w, smax; void (*f)(int n); };
%(regs)s
static void dump(std::string &o) { o += '['; %(dump)s o += ']'; }
static void load(Rng &r) { %(load)s }
%(instr)s
static const I tab[] = { %(tab)s };
static const int NT = sizeof tab / sizeof tab[0];
static void go(uint64_t seed, int runs, int len) {
  Rng r(hash_str("%(name)s") ^ (seed * 77777ull));
  for (int k = 0; k < runs; k++) {
    load(r);
    std::string l = "{\\"op\\":\\"run\\",\\"whole\\":1,\\"widths\\":%(widths)s,\\"init\\":";
    dump(l); l += ",\\"steps\\":[";
    bool dead = false;
    for (int i = 0; i < len && !dead; i++) {
      const I &in = tab[r.below(NT)];
      int n = in.ints ? int_pattern(r, in.ints, in.w, r.next()) : 0;
      volatile int rc = guarded([&]() { in.f(n); });
      if (i) l += ',';
      l += in.head;
      l += ",\\"n\\":["; if (in.ints) l += S(n); l += "],\\"regs\\":";
      if (rc) { l += "[[-1]]"; dead = true; } else dump(l);
      l += '}';
    }
    l += "]}";
    out.raw(l);
  }
}
"""


def table(r, widths, count):
    """Instructions (op, d, s, p, ints, expression) over the registers; 0-based."""
    by = {}
    for i, w in enumerate(widths):
        by.setdefault(w, []).append(i)
    n = len(widths)

    def dst(w):
        return r.choice(by[w]) if w in by else None
    out = []
    kinds = ["add", "sub", "addi", "subi", "mul", "sqr", "not", "and", "or", "xor", "andi", "xori", "shr", "shl", "adc", "inc",
             "addsub", "get", "get", "cat", "cat", "cat3", "zhi", "ohi", "zlo", "olo", "takel", "dropl", "takem", "dropm", "ext", "rsz",
             "copy", "sel", "lt", "eq"]
    tries = 0
    while len(out) < count and tries < count * 60:
        tries += 1
        k = r.choice(kinds)
        a = r.randrange(n)
        w = widths[a]
        b = r.choice(by[w])
        e = None
        R = "r%d"
        if k in ("add", "sub", "and", "or", "xor"):
            e = (k, dst(w), [a, b], [], "I_NONE", "r%d %s r%d" % (a, {"add": "+", "sub": "-", "and": "&", "or": "|", "xor": "^"}[k], b))
        elif k in ("addi", "subi", "andi", "xori"):
            e = (k, dst(w), [a], [], "I_ANY" if k in ("addi", "subi") else "I_NONNEG", "r%d %s n" % (a, {"addi": "+", "subi": "-", "andi": "&", "xori": "^"}[k]))
        elif k in ("shr", "shl"):
            e = (k, dst(w), [a], [], "I_SHIFT", "r%d %s n" % (a, ">>" if k == "shr" else "<<"))
        elif k == "mul":
            b = r.randrange(n)
            d = dst(w + widths[b])
            if d is not None:
                e = (k, d, [a, b], [], "I_NONE", "r%d * r%d" % (a, b))
        elif k == "sqr":
            d = dst(2 * w)
            if d is not None:
                e = (k, d, [a], [], "I_NONE", "square(r%d)" % a)
        elif k == "not":
            e = (k, dst(w), [a], [], "I_NONE", "~r%d" % a)
        elif k == "adc":
            c = r.choice(by[1])
            e = (k, dst(w), [a, b, c], [], "I_NONE", "add_with_cin(r%d, r%d, r%d)" % (a, b, c))
        elif k == "inc":
            c = r.choice(by[1])
            e = (k, dst(w), [a, c], [], "I_NONE", "add_cin(r%d, r%d)" % (a, c))
        elif k == "addsub":
            c = r.choice(by[1])
            e = (k, dst(w), [c, a, b], [], "I_NONE", "add_sub(r%d, r%d, r%d)" % (c, a, b))
        elif k == "get":
            d = r.randrange(n)
            if widths[d] <= w:
                lo = r.randint(0, w - widths[d])
                e = (k, d, [a], [lo + widths[d] - 1, lo], "I_NONE", "get_bits<%d,%d>(r%d)" % (lo + widths[d] - 1, lo, a))
        elif k == "cat":
            b = r.randrange(n)
            d = dst(w + widths[b])
            if d is not None:
                e = (k, d, [a, b], [], "I_NONE", "concat(r%d, r%d)" % (a, b))
        elif k == "cat3":
            b, c = r.randrange(n), r.randrange(n)
            d = dst(w + widths[b] + widths[c])
            if d is not None:
                e = ("cat", d, [a, b, c], [], "I_NONE", "concat(r%d, r%d, r%d)" % (a, b, c))
        elif k in ("zhi", "ohi", "zlo", "olo", "ext"):
            d = r.randrange(n)
            if widths[d] >= w:
                f = {"zhi": "zpad_hi", "ohi": "opad_hi", "zlo": "zpad_lo", "olo": "opad_lo", "ext": "extu"}[k]
                q = widths[d] if k == "ext" else widths[d] - w
                e = (k, d, [a], [q], "I_NONE", "%s<%d>(r%d)" % (f, q, a))
        elif k in ("takel", "takem", "dropl", "dropm"):
            d = r.randrange(n)
            if widths[d] <= w:
                f = {"takel": "take_lsbs", "takem": "take_msbs", "dropl": "drop_lsbs", "dropm": "drop_msbs"}[k]
                q = widths[d] if k[0] == "t" else w - widths[d]
                e = (k, d, [a], [q], "I_NONE", "%s<%d>(r%d)" % (f, q, a))
        elif k == "rsz":
            d = r.randrange(n)
            e = (k, d, [a], [], "I_NONE", "resize<%d>(r%d)" % (widths[d], a))
        elif k == "copy":
            d = r.randrange(n)
            c = r.choice(by[1])
            e = (k, d, [c], [], "I_NONE", "copybit<%d>(r%d)" % (widths[d], c))
        elif k == "sel":
            c = [r.choice(by[1]) for _ in range(2)]
            v = [r.choice(by[w]) for _ in range(3)]
            if r.random() < .5:
                e = (k, dst(w), [c[0], v[0], v[1]], [], "I_NONE", "select(r%d, r%d, r%d)" % (c[0], v[0], v[1]))
            else:
                e = (k, dst(w), [c[0], v[0], c[1], v[1], v[2]], [], "I_NONE",
                     "select(r%d, r%d, r%d, r%d, r%d)" % (c[0], v[0], c[1], v[1], v[2]))
        elif k in ("lt", "eq"):
            e = (k, r.choice(by[1]), [a, b], [], "I_NONE", "r%d %s r%d" % (a, "<" if k == "lt" else "==", b))
        if e:
            out.append(e)
    return out


def shards(seed, tier, r, count=2):
    quick = tier == "quick"
    res = []
    files = [[1, 1, 2, 3, 4, 4, 8, 8, 12, 16, 16, 24, 32, 32, 33, 64],
             [1, 1, 1, 7, 9, 16, 31, 32, 33, 33, 48, 64, 64, 65, 97, 128, 128]]
    for m in range(count if quick else 12):
        if m < 2:
            widths = files[m]
        else:
            widths = [1, 1] + sorted(r.randint(1, 64) for _ in range(8))
            widths += [min(128, widths[3] + widths[4]), min(128, 2 * widths[6]), 128, widths[5], widths[7]]
        tab = table(r, widths, 90)
        name = "mach%d" % m
        instr, rows = "", []
        for i, (op, d, s, p, ints, expr) in enumerate(tab):
            instr += "static void i%d(int n) { r%d = %s; }\n" % (i, d, expr)
            head = "{\\\"op\\\":\\\"%s\\\",\\\"d\\\":%d,\\\"s\\\":[%s],\\\"p\\\":[%s]" % (
                op, d + 1, ",".join(str(x + 1) for x in s), ",".join(map(str, p)))
            rows.append("{\"%s\", %s, %d, 0, i%d}" % (head, ints, widths[s[0]], i))
        decl = DECL % {
            "regs": "\n".join("static F<%d> r%d;" % (w, i) for i, w in enumerate(widths)),
            "dump": " o += ',';".join("put(o, r%d);" % i for i in range(len(widths))),
            "load": " ".join("r%d = mk<%d>(frac_pattern(r, %d));" % (i, w, w) for i, w in enumerate(widths)),
            "instr": instr, "tab": ",\n  ".join(rows), "name": name,
            "widths": "[" + ",".join(map(str, widths)) + "]"}
        res.append(Shard(name, program(["fw.hpp"], decl, "    go(seed, %d, %d);\n" % ((30, 40) if quick else (150, 100))), spec="TraceFW"))
    return res
