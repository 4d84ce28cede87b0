"""Programs on registers of number types (the machine of FPMachine.tla)."""
from vf.core import Shard
from vf.fmts import program


class Machine:
    """Registers and instructions of one generated program.

    A register is (kind, E, F, C++ type).  An instruction is a C++ statement over the
    register names, with what it is in the specification: op, destinations, sources,
    parameters.
    """

    def __init__(self, name):
        self.name, self.regs, self.loads, self.instr, self.pre = name, [], [], [], ""

    def reg(self, kind, e, f, cpp):
        self.regs.append((kind, e, f, cpp))
        return len(self.regs) - 1

    def load(self, i, expr="r%d"):
        self.loads.append(("load", [i], [], [], "fill(g, %s);" % (expr % i)))

    def ins(self, op, d, s, stmt, p=()):
        self.instr.append((op, d, s, list(p), stmt))

    def shard(self, headers, runs, length, group=""):
        code, rows = "", []
        allins = self.loads + self.instr
        for i, (op, d, s, p, stmt) in enumerate(allins):
            code += "static void i%d(Rng &g) { (void)g; %s }\n" % (i, stmt)
            head = "{\\\"op\\\":\\\"%s\\\",\\\"d\\\":[%s],\\\"s\\\":[%s],\\\"p\\\":[%s]" % (
                op, ",".join(str(x + 1) for x in d), ",".join(str(x + 1) for x in s),
                ",".join("\\\"%s\\\"" % x if isinstance(x, str) else str(x) for x in p))
            rows.append("{\"%s\", i%d}" % (head, i))
        types = "[" + ",".join("[%d,%d,%d]" % r[:3] for r in self.regs) + "]"
        decl = "using namespace thls;\n" + self.pre
        decl += "\n".join("static %s r%d;" % (r[3], i) for i, r in enumerate(self.regs)) + "\n"
        decl += "static void dump() { out.line += '['; %s out.line += ']'; }\n" % " out.line += ',';".join(
            "putr(r%d);" % i for i in range(len(self.regs)))
        decl += "static void load(Rng &g) { %s }\n" % " ".join("fill(g, r%d);" % i for i in range(len(self.regs)))
        decl += code
        decl += "static const Ins tab[] = { %s };\n" % ",\n  ".join(rows)
        body = "    machine(\"%s\", \"%s\", tab, %d, %d, dump, load, seed, %d, %d);\n" % (
            self.name, types, len(allins), len(self.loads), runs, length)
        return Shard(self.name, program(["machine.hpp"] + headers, decl, body), spec="TraceMachine", group=group)

    def twins(self, headers, runs, length, group=""):
        """The same program in several copies that differ in unspecified bits (Lockstep.tla)."""
        code, rows = "", []
        ins = [("load", [i], [], [], "fill2(g, r%d); blur(g, cpy, r%d);" % (i, i), 0) for i in range(len(self.regs))]
        ins += [("blur", [i], [i], [], "blur(g, cpy, r%d);" % i, 1) for i in range(len(self.regs))]
        nload = len(ins)
        ins += [t + (2,) for t in self.instr]
        for i, (op, d, s, p, stmt, kind) in enumerate(ins):
            code += "  void i%d(Rng &g, int cpy) { (void)g; %s }\n" % (i, stmt)
            head = "{\\\"op\\\":\\\"%s\\\",\\\"d\\\":[%s],\\\"s\\\":[%s],\\\"p\\\":[%s]" % (
                op, ",".join(str(x + 1) for x in d), ",".join(str(x + 1) for x in s),
                ",".join("\\\"%s\\\"" % x if isinstance(x, str) else str(x) for x in p))
            rows.append("{\"%s\", %d, &R::i%d}" % (head, kind, i))
        types = "[" + ",".join("[%d,%d,%d]" % r[:3] for r in self.regs) + "]"
        n = range(len(self.regs))
        decl = "using namespace thls;\n" + self.pre + "struct R {\n"
        decl += "\n".join("  %s r%d;" % (r[3], i) for i, r in enumerate(self.regs)) + "\n"
        decl += "  void dump() { out.line += '['; %s out.line += ']'; }\n" % " out.line += ',';".join("putr(r%d);" % i for i in n)
        decl += "  void load(Rng &g) { %s }\n" % " ".join("fill2(g, r%d);" % i for i in n)
        decl += "  void blur_all(Rng &g, int cpy) { %s }\n" % " ".join("blur(g, cpy, r%d);" % i for i in n)
        decl += code + "};\n"
        decl += "static const TIns<R> tab[] = { %s };\n" % ",\n  ".join(rows)
        body = "    twins<R>(\"%s\", \"%s\", tab, %d, %d, seed, %d, %d);\n" % (self.name, types, len(ins), nload, runs, length)
        return Shard(self.name, program(["twin.hpp"] + headers, decl, body), spec="TraceLockstep", group=group)


RELS = [("lt", "less_than", "<"), ("le", "less_than_equal", "<="), ("eq", "equal", "=="), ("ne", "not_equal", "!="),
        ("ge", "greater_than_equal", ">="), ("gt", "greater_than", ">")]
NAMED = ["min", "neg_min", "max", "neg_max", "lowest", "infinity", "neg_infinity", "quiet_NaN", "pos_zero", "neg_zero", "pos_one",
         "neg_one"]
