------------------------------- MODULE TraceFP ------------------------------
(***************************************************************************)
(* Trace specification: a recording of the implementation, one JSON object *)
(* per line, is accepted iff every line is a sequence of transitions       *)
(*      operands --operation--> result                                     *)
(* that FPOps allows.  Each line is an event                               *)
(*      [op, v, fx, fy, fr, ..., c]                                        *)
(* with the operation, the implementation variant that computed it, the    *)
(* formats, and a batch c of cases <<operand, ..., result>>.               *)
(*                                                                         *)
(* A result of class 9 is a call that did not return (an assertion of the  *)
(* library fired, or it threw); no operation allows it.                    *)
(***************************************************************************)
EXTENDS FPOps, Exchange, Reference, TLCExt, Json, IOUtils

Trc == ndJsonDeserialize(IOEnv.TRACE)

\* Failures recorded as known findings: <<variant, formats, operands>>.
Known == IF "KNOWN" \in DOMAIN IOEnv
         THEN LET k == ndJsonDeserialize(IOEnv.KNOWN)
              IN  {<<k[i].op, k[i].v, k[i].f, k[i].x>> : i \in 1..Len(k)}
         ELSE {}

VARIABLES l,        \* next line
          seen      \* <<op, kind of rounding>> exercised, sampled once a line
vars == <<l, seen>>

Last(c) == c[Len(c)]
\* Operands of a dot product, in pairs.
Pairs(c) == [i \in 1..((Len(c) - 1) \div 2) |-> <<c[2*i - 1], c[2*i]>>]

Soft == {"softadd", "softmul", "softdiv"}
SoftExact(ev, c) ==
    LET x == IValue(ev.fx, c[1])  y == IValue(ev.fx, c[2])
    IN  CASE ev.op = "softadd" -> SumX(x, y)
          [] ev.op = "softmul" -> MulT(x, y)
          [] ev.op = "softdiv" -> DivT(x, y, ev.fx[2] + 3)

Ret(fr, r) == r[1] \in 0..3 /\ WellFormed(fr, r)

Ok(ev, c) ==
    LET r == Last(c)
    IN  CASE ev.op \in Rounded -> Is(ev.fr, r, Finish(ev.fr, ExactOf(ev, c)))
          [] ev.op = "neg"  -> Is(ev.fr, r, FpNeg(ev.fx, c[1], ev.fr))
          [] ev.op = "invf" -> FaithfulOk(ev.fx, c[1], ev.fr, r)
          [] ev.op = "fma"  -> \/ Is(ev.fr, r, FmaOnce(ev.fx, c[1], ev.fy, c[2], ev.fz, c[3], ev.fr))
                               \/ Is(ev.fr, r, FmaTwice(ev.fx, c[1], ev.fy, c[2], ev.fz, c[3], ev.fr))
          [] ev.op = "fmaonce" -> Is(ev.fr, r, FmaOnce(ev.fx, c[1], ev.fy, c[2], ev.fz, c[3], ev.fr))
          [] ev.op = "ldexp" -> Is(ev.fr, r, Finish(ev.fr, ScaleX(ev.fx, c[1], ev.k)))
          [] ev.op = "invpair" -> LET e == InvPair(ev.fx, c[1], ev.fr)
                                  IN  Is(ev.fr, r[1], e[1]) /\ Is(ev.fr, r[2], e[2])
          [] ev.op = "sqrt" -> Ret(ev.fr, r) /\ SqrtOk(ev.fx, c[1], ev.fr, r)
          [] ev.op = "exp"  -> Ret(ev.fr, r) /\ ExpOk(ev.fx, c[1], ev.fr, r)
          [] ev.op = "log"  -> Ret(ev.fr, r) /\ LogOk(ev.fx, c[1], ev.fr, r)
          [] ev.op = "pow"  -> Ret(ev.fr, r) /\ PowOk(ev.fx, c[1], ev.fy, c[2], ev.fr, r)
          [] ev.op = "dot" -> Is(ev.fr, r, FinishTrunc(ev.fr, DotX(ev.fx, Pairs(c))))
          [] ev.op = "cmp"  ->     \* the six relations in one case
                 LET o == FpCmp(ev.fx, c[1], ev.fy, c[2])
                 IN  r = << Bool(Holds("lt", o)), Bool(Holds("le", o)), Bool(Holds("eq", o)),
                            Bool(Holds("ne", o)), Bool(Holds("ge", o)), Bool(Holds("gt", o)) >>
          [] ev.op = "up"    -> Is(ev.fx, r, NextUp(ev.fx, c[1]))
          [] ev.op = "down"  -> Is(ev.fx, r, NextDown(ev.fx, c[1]))
          [] ev.op = "near"  ->    \* equals, within_1ulp
                 r = << Bool(Canon(c[1]) = Canon(c[2])), Bool(Within1Ulp(ev.fx, c[1], c[2])) >>
          [] ev.op = "class" -> r = <<EqualityClass(c[1])>> \o Preds(c[1])
          [] ev.op = "named" -> Is(ev.fx, r, Named(ev.fx, ev.name))
          [] ev.op = "constants" -> r = Constants(ev.fx, ev.kind)
          [] ev.op = "fields" ->   \* bits, and the fields read back
                 /\ r[1] = RawBits(ev.fx, c[1])
                 /\ r[2] = c[1]
                 /\ r[3] = Add(c[1][4], Shl(FromInt(c[1][3]), ev.fx[2]))
                 /\ r[4] = Add(c[1][4], Shl(FromInt(c[1][3] + P2[ev.fx[1]] * c[1][1]), ev.fx[2]))
          [] ev.op = "tompfr" ->   \* read out into ev.p bits, rounded as asked
                 /\ r[1] \in 0..3
                 /\ SameExact(MPExact(r), RoundTo(ev.p, ev.rnd, Exact(ev.fx, c[1])))
          [] ev.op = "frommpfr" ->
                 LET t == MPExact(c[1])
                 IN  IF ev.allow = 1 \/ InRange(ev.fx, t) THEN Is(ev.fx, r, Finish(ev.fx, t))
                     ELSE r[1] = 9 /\ r[2] = 2
          [] ev.op = "rejected" -> r[1] = 9 /\ r[2] = 2
          [] ev.op = "todouble" -> IsEncoding(DOUBLE, Exact(ev.fx, c[1]), r)
          [] ev.op = "fromdouble" -> Is(ev.fx, r, FromDouble(ev.fx, c[1]))
          [] ev.op = "text" -> r = Text(ev.fx, c[1])
          [] ev.op = "ieeetompfr" -> r[1] \in 0..3 /\ SameExact(MPExact(r), RoundTo(ev.p, ev.rnd, Exact(ev.fx, FromIEEE(ev.fx, c[1]))))
          [] ev.op = "ieeefrommpfr" ->
                 LET t == MPExact(c[1])
                 IN  IF ev.allow = 1 \/ IEEEInRange(ev.fx, t) THEN IsToIEEE(ev.fx, Finish(ev.fx, t), r)
                     ELSE r[1] = 9 /\ r[2] = 2
          [] ev.op = "ieeetodouble" -> IsEncoding(DOUBLE, Exact(ev.fx, FromIEEE(ev.fx, c[1])), r)
          [] ev.op = "ieeetext" -> r = IEEEText(ev.fx, c[1])
          [] ev.op = "fromieee" -> Is(ev.fx, r, FromIEEE(ev.fx, c[1]))
          [] ev.op = "toieee"   -> IsToIEEE(ev.fx, c[1], r)
          [] ev.op = "fromieeeprom" -> Is(ev.fr, r, FpConv(ev.fx, FromIEEE(ev.fx, c[1]), ev.fr))
          [] ev.op = "ieeenamed" -> IsIEEENamed(ev.fx, ev.name, r)
          [] ev.op = "ieeeadd" -> IsToIEEE(ev.fr, FpAdd(ev.fx, FromIEEE(ev.fx, c[1]), ev.fy, FromIEEE(ev.fy, c[2]), ev.fr), r)
          [] ev.op = "ieeemul" -> IsToIEEE(ev.fr, FpMul(ev.fx, FromIEEE(ev.fx, c[1]), ev.fy, FromIEEE(ev.fy, c[2]), ev.fr), r)
          [] ev.op = "ieeediv" -> IsToIEEE(ev.fr, FpDiv(ev.fx, FromIEEE(ev.fx, c[1]), ev.fy, FromIEEE(ev.fy, c[2]), ev.fr), r)
          [] ev.op = "ieeeprom" -> IsIEEEPromoted(ev.fx, c[1], ev.fr, r)
          [] ev.op = "toieeeprom" -> IsIEEEOfPromoted(ev.fx, c[1], ev.fr, r)
          [] ev.op = "ieeeclass" -> r = IEEEPreds(ev.fx, c[1])
          [] ev.op = "ieeeeq" -> r = Bool(IEEEEquals(ev.fx, c[1], c[2]))
          [] ev.op \in Soft -> IsEncoding(ev.fx, SoftExact(ev, c), r)
          [] ev.op = "softcmp" ->
                 LET x == IValue(ev.fx, c[1])  y == IValue(ev.fx, c[2])
                     o == IF ClassT(x) = NAN \/ ClassT(y) = NAN THEN 2 ELSE CmpExact(x, y)
                 IN  r = << Bool(Holds("lt", o)), Bool(Holds("le", o)), Bool(Holds("eq", o)),
                            Bool(Holds("ne", o)), Bool(Holds("ge", o)), Bool(Holds("gt", o)) >>
          [] ev.op = "softnamed" -> IsSoftNamed(ev.fx, ev.name, r)
          [] ev.op = "softtompfr" -> r[1] \in 0..3 /\ SameExact(MPExact(r), IValue(ev.fx, c[1]))
          [] ev.op = "softtompfrbits" ->     \* exactly, or refused
                 LET t == IValue(ev.fx, c[1])
                 IN  IF SameExact(RoundTo(ev.p, "n", t), t) THEN r[1] \in 0..3 /\ SameExact(MPExact(r), t)
                     ELSE r[1] = 9 /\ r[2] = 2
          [] ev.op = "softfrommpfr" -> SoftImport(ev.fx, MPExact(c[1]), ev.allow, r)
          [] OTHER -> FALSE

\* What the specification would have accepted, for the report.
Expect(ev, c) ==
    CASE ev.op \in Rounded -> Finish(ev.fr, ExactOf(ev, c))
      [] ev.op = "neg" -> FpNeg(ev.fx, c[1], ev.fr)
      [] ev.op \in {"fma", "fmaonce"} -> FmaOnce(ev.fx, c[1], ev.fy, c[2], ev.fz, c[3], ev.fr)
      [] ev.op = "dot" -> FinishTrunc(ev.fr, DotX(ev.fx, Pairs(c)))
      [] ev.op = "invf" -> FaithfulInv(ev.fx, c[1], ev.fr)
      [] ev.op = "ldexp" -> Finish(ev.fr, ScaleX(ev.fx, c[1], ev.k))
      [] ev.op = "invpair" -> InvPair(ev.fx, c[1], ev.fr)
      [] ev.op = "up" -> NextUp(ev.fx, c[1])
      [] ev.op = "down" -> NextDown(ev.fx, c[1])
      [] ev.op = "named" -> Named(ev.fx, ev.name)
      [] ev.op = "constants" -> Constants(ev.fx, ev.kind)
      [] ev.op = "fromieee" -> FromIEEE(ev.fx, c[1])
      [] ev.op = "fromdouble" -> FromDouble(ev.fx, c[1])
      [] ev.op = "text" -> Text(ev.fx, c[1])
      [] ev.op = "ieeetext" -> IEEEText(ev.fx, c[1])
      [] ev.op = "tompfr" -> RoundTo(ev.p, ev.rnd, Exact(ev.fx, c[1]))
      [] ev.op \in Soft -> (LET t == SoftExact(ev, c)
                            IN  IF t[1] = 1 THEN IRound(ev.fx, t[2], t[3], t[4]) ELSE t[2])
      [] OTHER -> <<"see specification">>

KnownKey(ev, c) == <<ev.op, ev.v, ev.f, SubSeq(c, 1, Len(c)-1)>>

Check(i) ==
    LET ev == Trc[l]  c == ev.c[i]
    IN  IF Ok(ev, c) THEN TRUE
        ELSE IF Known # {} /\ KnownKey(ev, c) \in Known
        THEN PrintT(<<"KNOWN", ev.op, ev.v, c>>)
        ELSE /\ PrintT(<<"MISMATCH", "line", l, "case", i, "op", ev.op, "variant", ev.v,
                         "recorded", c, "allowed", Expect(ev, c)>>)
             /\ FALSE

Kind(ev, c) == IF ev.op \in Rounded THEN <<ev.op, RoundKind(ev.fr, ExactOf(ev, c))>>
               ELSE IF ev.op \in Soft THEN <<ev.op, IKind(ev.fx, SoftExact(ev, c))>>
               ELSE <<ev.op>>

Init == l = 1 /\ seen = {}
Next == /\ l <= Len(Trc)
        /\ (\A i \in 1..Len(Trc[l].c) : Check(i)) = TRUE
        /\ l' = l + 1
        /\ seen' = seen \cup {Kind(Trc[l], Trc[l].c[1 + (l % Len(Trc[l].c))])}

Spec == Init /\ [][Next]_vars

Report == l = Len(Trc) + 1 => PrintT(<<"SEEN", seen>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trc)
=============================================================================
