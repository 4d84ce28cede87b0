------------------------------- MODULE FWUint -------------------------------
(***************************************************************************)
(* Fixed-width unsigned numbers: arithmetic modulo 2^w, bit fields,        *)
(* concatenation, selection and the exchange with text, words and big      *)
(* integers.  A number is a BigNat below 2^w; Apply is the transition      *)
(* function of every operation:                                            *)
(*     op   the operation            ws  the widths of the operands        *)
(*     w    the width of the result  p   its (static) parameters           *)
(*     a    the operands                                                   *)
(* Plain integer operands are TLC integers.                                *)
(***************************************************************************)
EXTENDS IEEE754, FiniteSets

\* A number as an exact result.
IntExact(m) == IF m = << >> THEN Special(VZero(0)) ELSE Dyadic(0, m, 0)

FWText(w, x) ==   \* the characters of to_string: 0b, then bits grouped by eight from the right
    LET \* character for position i counted from the left, of w bits
        Piece(i) == <<48 + Bit(x, w - i)>> \o (IF (w - i) % 8 = 0 /\ i < w THEN <<95>> ELSE << >>)
        RECURSIVE F(_)
        F(i) == IF i > w THEN << >> ELSE Piece(i) \o F(i + 1)
    IN  <<48, 98>> \o F(1)

RECURSIVE Digits(_, _, _, _)
Digits(t, i, base, acc) ==
    IF i > Len(t) THEN acc
    ELSE IF t[i] = 95 THEN Digits(t, i + 1, base, acc)
    ELSE Digits(t, i + 1, base, Add(Mul(acc, <<base>>), FromInt(t[i] - 48)))
\* Well-formed binary text for width w: 0b, w binary digits, underscores only before the last of them.
IsBin(w, t) == /\ Len(t) >= 2 /\ t[1] = 48 /\ t[2] = 98
               /\ \A i \in 3..Len(t) : t[i] \in {48, 49, 95}
               /\ Cardinality({i \in 3..Len(t) : t[i] # 95}) = w
               /\ (w > 0 => t[Len(t)] # 95)
ParseBin(t) == Digits(SubSeq(t, 3, Len(t)), 1, 2, << >>)
ParseDec(t) == Digits(t, 1, 10, << >>)

RECURSIVE FWCat(_, _, _)
FWCat(ws, a, i) == IF i > Len(a) THEN << >>
                   ELSE LET rest == FWCat(ws, a, i + 1)
                            RECURSIVE Wd(_)
                            Wd(j) == IF j > Len(a) THEN 0 ELSE ws[j] + Wd(j + 1)
                        IN  Add(Shl(a[i], Wd(i + 1)), rest)

\* A plain integer modulo 2^w.
IntMod(w, n) == IF n >= 0 THEN Low(FromInt(n), w)
                ELSE Low(Sub(Pow2(w + 32), FromInt(0 - n)), w)
SubMod(w, x, y) == Low(Sub(Add(x, Pow2(w)), y), w)

\* <<c1, v1, c2, v2, ..., default>>: the first selected value.
RECURSIVE FWSel(_, _)
FWSel(a, i) == IF i = Len(a) THEN a[i]
               ELSE IF a[i] # << >> THEN a[i + 1] ELSE FWSel(a, i + 2)

Relations(o) == << Bool(o < 0), Bool(o <= 0), Bool(o = 0), Bool(o # 0), Bool(o >= 0), Bool(o > 0) >>

FWApply(op, ws, w, p, a) ==
    CASE op = "add"   -> Low(Add(a[1], a[2]), w)
      [] op = "sub"   -> SubMod(w, a[1], a[2])
      [] op = "addi"  -> Low(Add(a[1], IntMod(w, a[2])), w)
      [] op = "subi"  -> SubMod(w, a[1], IntMod(w, a[2]))
      [] op = "mul"   -> Mul(a[1], a[2])
      [] op = "sqr"   -> Mul(a[1], a[1])
      [] op = "cmp"   -> Relations(Cmp(a[1], a[2]))
      [] op = "cmpi"  -> Relations(Cmp(a[1], FromInt(a[2])))
      [] op = "lt"    -> FromInt(Bool(Cmp(a[1], a[2]) < 0))
      [] op = "eq"    -> FromInt(Bool(a[1] = a[2]))
      [] op = "not"   -> Sub(Ones(w), a[1])
      [] op = "and"   -> And(a[1], a[2])
      [] op = "or"    -> Or(a[1], a[2])
      [] op = "xor"   -> Xor(a[1], a[2])
      [] op = "andi"  -> And(a[1], IntMod(w, a[2]))
      [] op = "ori"   -> Or(a[1], IntMod(w, a[2]))
      [] op = "xori"  -> Xor(a[1], IntMod(w, a[2]))
      [] op = "shr"   -> Shr(a[1], a[2])
      [] op = "shl"   -> Low(Shl(a[1], a[2]), w)
      [] op = "adc"   -> Low(Add(Add(a[1], a[2]), a[3]), w)
      [] op = "inc"   -> Low(Add(a[1], a[2]), w)
      [] op = "addsub" -> IF a[1] = << >> THEN Low(Add(a[2], a[3]), w) ELSE SubMod(w, a[2], a[3])
      [] op = "get"   -> Low(Shr(a[1], p[2]), p[1] - p[2] + 1)
      [] op = "cat"   -> FWCat(ws, a, 1)
      [] op = "carr"  -> \* elements p[1] down to p[2] of the array a (a[1] is element 0)
                         LET n == p[1] - p[2] + 1
                         IN  FWCat([i \in 1..n |-> ws[1]], [i \in 1..n |-> a[p[1] + 2 - i]], 1)
      [] op = "zhi"   -> a[1]
      [] op = "ohi"   -> Add(a[1], Shl(Ones(p[1]), ws[1]))
      [] op = "zlo"   -> Shl(a[1], p[1])
      [] op = "olo"   -> Add(Shl(a[1], p[1]), Ones(p[1]))
      [] op = "takel" -> Low(a[1], p[1])
      [] op = "dropl" -> Shr(a[1], p[1])
      [] op = "takem" -> Shr(a[1], ws[1] - p[1])
      [] op = "dropm" -> Low(a[1], ws[1] - p[1])
      [] op = "ext"   -> a[1]
      [] op = "rsz"   -> Low(a[1], w)
      [] op = "copy"  -> IF a[1] = << >> THEN << >> ELSE Ones(w)
      [] op = "sel"   -> FWSel(a, 1)
      [] op = "lut"   -> FromInt(p[ToInt(a[1]) + 1])
      [] op = "zg"    -> << >>
      [] op = "og"    -> Ones(w)
      [] op = "cg"    -> FromInt(a[1])
      [] op = "text"  -> FWText(w, a[1])
      [] op = "num"   -> a[1]        \* big integers, words, machine integers, in either direction

-----------------------------------------------------------------------------
(* The machine: a file of registers of fixed widths, and programs whose    *)
(* instructions replace one register by the result of an operation on      *)
(* others.  FWStep is its transition function; TypeOK its invariant.       *)
FWTypeOK(widths, regs) == \A i \in 1..Len(widths) : IsBigNat(regs[i]) /\ BitLen(regs[i]) <= widths[i]

FWStep(widths, regs, ins) ==
    LET a == [i \in 1..Len(ins.s) |-> regs[ins.s[i]]] \o ins.n
        ws == [i \in 1..Len(ins.s) |-> widths[ins.s[i]]]
    IN  [regs EXCEPT ![ins.d] = FWApply(ins.op, ws, widths[ins.d], ins.p, a)]
=============================================================================
