------------------------------ MODULE FPMachine -----------------------------
(***************************************************************************)
(* Straight-line programs over registers of several number types.          *)
(*                                                                         *)
(* The type of a register is <<kind, E, F>>:                               *)
(*   0  a value of the internal format,  <<class, sign, exponent, frac>>   *)
(*   1  an interchange encoding of the library, <<sign, exponent, frac>>,  *)
(*      read with subnormals as zero                                       *)
(*   2  an IEEE 754 encoding with subnormals, <<sign, exponent, frac>>     *)
(*   3  a truth value, <<b>>                                               *)
(* The state of the machine is what the registers hold, don't-care bits    *)
(* included: a step may leave any of the representations of the value it   *)
(* computes, and the next step starts from the one it left.                *)
(*                                                                         *)
(* An instruction is [op, d, s, p, n]: the registers written (all with the *)
(* same result), those read, compile-time parameters and run-time ones.    *)
(* Its result is the exact result of the operation on the values read,     *)
(* rounded once to the type of the destination, whatever the types of the  *)
(* operands are.                                                           *)
(***************************************************************************)
EXTENDS FPOps, Exchange

Fmt(t) == <<t[2], t[3]>>

WF(t, v) ==
    CASE t[1] = 0 -> WellFormed(Fmt(t), v)
      [] t[1] = 3 -> v[1] \in 0..1
      [] OTHER    -> IEEEWellFormed(Fmt(t), v)

\* The value a register holds, as an exact result.
Value(t, v) ==
    CASE t[1] = 0 -> Exact(Fmt(t), v)
      [] t[1] = 1 -> Exact(Fmt(t), FromIEEE(Fmt(t), v))
      [] t[1] = 2 -> IValue(Fmt(t), v)

\* r is a representation of the exact result x rounded to type t.
Becomes(t, x, r) ==
    CASE t[1] = 0 -> Is(Fmt(t), r, Finish(Fmt(t), x))
      [] t[1] = 1 -> IsToIEEE(Fmt(t), Finish(Fmt(t), x), r)
      [] t[1] = 2 -> IsEncoding(Fmt(t), x, r)

\* Two contents of a register that mean the same.
Same(t, a, b) ==
    CASE t[1] = 0 -> Canon(a) = Canon(b)
      [] t[1] = 3 -> a = b
      [] OTHER    -> a = b \/ (IIsNaN(Fmt(t), a) /\ IIsNaN(Fmt(t), b))

NegT(a) == IF a[1] = 1 THEN Dyadic(1 - a[2], a[3], a[4]) ELSE Special(FlipSign(a[2]))
CmpT(a, b) == IF ClassT(a) = NAN \/ ClassT(b) = NAN THEN 2 ELSE CmpExact(a, b)
OneT == Dyadic(0, <<1>>, 0)

Rels == {"lt", "le", "eq", "ne", "ge", "gt"}
Arith == {"add", "mul", "div", "sqr", "inv", "conv", "neg"}

\* a, b: exact operands; f: fraction bits of the result.
Compute(op, a, b, f) ==
    CASE op = "add" -> SumX(a, b)
      [] op = "mul" -> MulT(a, b)
      [] op = "div" -> DivT(a, b, f + 3)
      [] op = "sqr" -> MulT(a, a)
      [] op = "inv" -> DivT(OneT, a, f + 3)
      [] op = "conv" -> a
      [] op = "neg" -> NegT(a)

\* The exact result x after it has been stored in type t and read again.
Stored(t, x) ==
    CASE t[1] = 0 -> Exact(Fmt(t), Finish(Fmt(t), x))
      [] t[1] = 1 -> LET v == Finish(Fmt(t), x)
                     IN  IF v[1] = NORM /\ v[3] = 0 THEN Special(VZero(v[2]))
                         ELSE IF v[1] = NORM /\ v[3] = MaxExpF(Fmt(t)) THEN Special(VInf(v[2]))
                         ELSE Exact(Fmt(t), v)
      [] t[1] = 2 -> IF x[1] = 0 THEN x ELSE IValue(Fmt(t), IRound(Fmt(t), x[2], x[3], x[4]))

\* An expression in postfix order over the operands x: every operator stores its result.
\* The value is the exact result of the last operator.
Expr(t, code, x) ==
    LET RECURSIVE Go(_, _)
        Go(i, st) ==
            IF i > Len(code) THEN Head(st)
            ELSE LET w == code[i]  lst == i = Len(code)
                     rest == SubSeq(st, 3, Len(st))
                     put(v) == Go(i + 1, <<IF lst THEN v ELSE Stored(t, v)>> \o rest)
                 IN  CASE w = "x1" -> Go(i + 1, <<x[1]>> \o st)
                       [] w = "x2" -> Go(i + 1, <<x[2]>> \o st)
                       [] w = "x3" -> Go(i + 1, <<x[3]>> \o st)
                       [] OTHER -> put(Compute(w, st[2], st[1], t[3]))
    IN  Go(1, << >>)

\* What an instruction may leave in a destination of type t.
Leaves(types, regs, ins, t, r) ==
    LET S(i) == regs[ins.s[i]]
        T(i) == types[ins.s[i]]
        X(i) == Value(T(i), S(i))
    IN  CASE ins.op \in Arith ->
                 Becomes(t, Compute(ins.op, X(1), IF Len(ins.s) > 1 THEN X(2) ELSE << >>, t[3]), r)
          [] ins.op = "expr" -> Becomes(t, Expr(t, ins.p, [j \in 1..Len(ins.s) |-> X(j)]), r)
          [] ins.op = "prom" ->    \* to an encoding at least as wide: subnormal and zero encodings are all zero
                 WF(t, r) /\ FromIEEE(Fmt(t), r) = Finish(Fmt(t), X(1))
          [] ins.op \in Rels -> r = <<Bool(Holds(ins.op, CmpT(X(1), X(2))))>>
          [] ins.op = "copy" -> WF(t, r) /\ Same(t, r, S(1))
          [] ins.op = "sel"  -> WF(t, r) /\ Same(t, r, IF S(1) = <<1>> THEN S(2) ELSE S(3))
          [] ins.op = "load" -> WF(t, r)
          [] ins.op = "invf" -> FaithfulOk(Fmt(T(1)), S(1), Fmt(t), r)
          [] ins.op = "fma"  ->
                 \/ Becomes(t, SumX(MulT(X(1), X(2)), X(3)), r)
                 \/ Is(Fmt(t), r, FmaTwice(Fmt(T(1)), S(1), Fmt(T(2)), S(2), Fmt(T(3)), S(3), Fmt(t)))
          [] ins.op = "up"    -> Is(Fmt(t), r, NextUp(Fmt(t), S(1)))
          [] ins.op = "down"  -> Is(Fmt(t), r, NextDown(Fmt(t), S(1)))
          [] ins.op = "near"  -> r = <<Bool(Within1Ulp(Fmt(T(1)), S(1), S(2)))>>
          [] ins.op = "same"  -> r = <<Bool(Canon(S(1)) = Canon(S(2)))>>
          [] ins.op = "isnan" -> r = <<Bool(ClassT(X(1)) = NAN)>>
          [] ins.op = "isinf" -> r = <<Bool(ClassT(X(1)) = INF)>>
          [] ins.op = "iszero" -> r = <<Bool(ClassT(X(1)) = ZERO)>>
          [] ins.op = "isnormal" -> r = <<Bool(ClassT(X(1)) = NORM)>>
          [] ins.op = "const" -> IF t[1] = 0 THEN Is(Fmt(t), r, Named(Fmt(t), ins.p[1]))
                                 ELSE IsIEEENamed(Fmt(t), ins.p[1], r)
          [] ins.op = "fromd" -> Is(Fmt(t), r, FromDouble(Fmt(t), S(1)))
          [] OTHER -> FALSE

\* One step: the destinations receive the result, everything else stays bit for bit.
Step(types, regs, ins, new) ==
    /\ DOMAIN new = DOMAIN regs
    /\ \A i \in DOMAIN regs :
          IF \E j \in 1..Len(ins.d) : ins.d[j] = i
          THEN Leaves(types, regs, ins, types[i], new[i])
          ELSE new[i] = regs[i]

\* The registers an incorrect step got wrong, for the report.
Wrong(types, regs, ins, new) ==
    {i \in DOMAIN regs :
        ~ (IF \E j \in 1..Len(ins.d) : ins.d[j] = i
           THEN Leaves(types, regs, ins, types[i], new[i])
           ELSE new[i] = regs[i])}
TypeOK(types, regs) == \A i \in DOMAIN types : WF(types[i], regs[i])

\* How the rounding of a step went, for measuring what a run covered.
StepKind(types, regs, ins, t) ==
    IF ins.op \in Arith /\ t[1] \in {0, 1}
    THEN RoundKind(Fmt(t), Compute(ins.op, Value(types[ins.s[1]], regs[ins.s[1]]),
                                   IF Len(ins.s) > 1 THEN Value(types[ins.s[2]], regs[ins.s[2]]) ELSE << >>, t[3]))
    ELSE << >>
=============================================================================
