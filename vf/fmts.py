"""Choice of formats and building of harness programs."""
import random

# Fraction widths around which word, limb and pad boundaries lie.
F_SET = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 22, 23, 24, 25, 27, 28, 29, 30, 31, 32,
         33, 34, 36, 39, 40, 43, 44, 47, 48, 50, 51, 52, 53]


def rng(seed, what):
    return random.Random("%s/%s" % (seed, what))


def sweep(seed, what, flo, fhi, elo, ehi):
    """Every fraction width once, with exponent widths that come round in a random order."""
    r, es, out = rng(seed, "sweep" + what), [], []
    for f in range(flo, fhi + 1):
        if not es:
            es = list(range(elo, ehi + 1))
            r.shuffle(es)
        out.append((es.pop(), f))
    return out


def split(items, n):
    n = max(1, min(n, len(items)))
    return [items[i::n] for i in range(n)]


MAIN = """
int main(int argc, char **argv) {
    install_handlers();
    out.start(argv[1]);
    uint64_t seed = strtoull(argv[2], 0, 10);
    (void)seed;
%s
    out.finish();
    return 0;
}
"""


def program(headers, decls, body):
    return "".join('#include "%s"\n' % h for h in headers) + decls + MAIN % body


def wide(seed, what, n, elo=2, ehi=14, most=128):
    """n formats with fractions beyond 64 bits, up to words of `most` bits."""
    r, out = rng(seed, "wide" + what), []
    while len(out) < n:
        e = r.randint(elo, ehi)
        out.append((e, r.choice([65, 66, 79, 80, 95, 96, 97, most - 3 - e, most - 4 - e] + [r.randint(65, most - 3 - e)] * 6)))
    return out
