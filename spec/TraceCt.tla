------------------------------- MODULE TraceCt ------------------------------
(***************************************************************************)
(* Trace specification for the compile-time generators and vectors and the *)
(* linear generator.  Lines are batches [op, v, p, c] of calls, or runs    *)
(* [op: "lut", v, p: <<n, t>>, s, states] of the linear generator, whose   *)
(* states are lists of bit positions; st is its current state.             *)
(***************************************************************************)
EXTENDS CtRng, CtConst, TLC, TLCExt, Json, IOUtils

Trc == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, st, net, seen
vars == <<l, k, st, net, seen>>

SetOf(q) == {q[i] : i \in 1..Len(q)}
Fold(q) == LET RECURSIVE F(_, _)
               F(i, acc) == IF i > Len(q) THEN acc ELSE F(i + 1, Add(Mul(acc, <<1009>>), FromInt(q[i] + 7)))
           IN  F(1, << >>)

Allowed(ev, c) ==
    CASE ev.op = "skip"  -> IsSkip(Generator(ev.v), c[1], c[2], c[3], c[4])
      [] ev.op = "perm"  -> LET p == Permute(Generator(ev.v), c[1], c[2])
                            IN  c[3] = p[1] /\ c[4] = p[2] /\ IsPermutationOf(c[3], c[2])
      [] ev.op = "rotation" -> c[3] = Rotation(c[1], c[2])
      [] ev.op = "read"   -> c[3] = c[1][c[2] + 1]
      [] ev.op = "write"  -> c[4] = [c[1] EXCEPT ![c[2] + 1] = c[3]]
      [] ev.op = "swap"   -> c[4] = Swap(c[1], c[2] + 1, c[3] + 1)
      [] ev.op = "unique" -> c[2] = Unique(c[1])
      [] ev.op = "fill"   -> c[3] = [i \in 1..c[1] |-> c[2]]
      [] ev.op = "visit"  -> c[2] = [i \in 1..Len(c[1]) |-> <<i - 1, c[1][i]>>]
      [] ev.op \in {"max", "imax"} -> c[3] = SMax(c[1], c[2])
      [] ev.op \in {"min", "imin"} -> c[3] = SMin(c[1], c[2])
      [] ev.op = "max4"   -> c[5] = SMax(SMax(c[1], c[2]), SMax(c[3], c[4]))
      [] ev.op = "min4"   -> c[5] = SMin(SMin(c[1], c[2]), SMin(c[3], c[4]))
      [] ev.op = "width"  -> c[2] = BitLen(c[1])
      [] ev.op = "sequence" -> c[2] = [i \in 1..c[1] |-> i - 1]
      [] ev.op = "shl"    -> c[3] = SShl(c[1], c[2])
      [] ev.op = "shr"    -> c[3] = SShr(c[1], c[2])
      [] ev.op = "fix"    -> c[3] = FixRelations(c[1], c[2])
      [] ev.op = "reduce" -> c[2] = [i \in 1..Len(c[1]) |-> <<i - 1, c[1][i]>>]

Check(i) ==
    LET ev == Trc[l]  c == ev.c[i]
    IN  IF Allowed(ev, c) THEN TRUE
        ELSE /\ PrintT(<<"MISMATCH", "line", l, "case", i, "op", ev.op, "variant", ev.v, "recorded", c>>)
             /\ FALSE

IsRun(i) == i <= Len(Trc) /\ Trc[i].op = "lut"
Enter(i) == IF IsRun(i) THEN <<1, SetOf(Trc[i].states[1]), Network(Trc[i].p[1], Trc[i].p[2], Trc[i].s)>>
            ELSE <<0, {}, << >> >>
Init == /\ l = 1 /\ seen = {}
        /\ LET e == Enter(1) IN k = e[1] /\ st = e[2] /\ net = e[3]
Go == LET e == Enter(l + 1) IN l' = l + 1 /\ k' = e[1] /\ st' = e[2] /\ net' = e[3]

Batch == /\ l <= Len(Trc) /\ k = 0
         /\ (\A i \in 1..Len(Trc[l].c) : Check(i)) = TRUE
         /\ Go
         /\ seen' = seen \cup {<<Trc[l].op, Trc[l].v>>}
\* One step of the linear generator.
Run == /\ l <= Len(Trc) /\ k > 0 /\ k < Len(Trc[l].states)
       /\ LET ev == Trc[l]  nx == LutStep(ev.p[1], net, st)
          IN  /\ IF SetOf(ev.states[k + 1]) = nx THEN TRUE
                 ELSE /\ PrintT(<<"MISMATCH", "line", l, "step", k, "parameters", ev.p, ev.s, "state", st,
                                  "recorded", ev.states[k + 1], "allowed", nx>>)
                      /\ FALSE
              /\ st' = nx /\ k' = k + 1 /\ UNCHANGED <<l, net>>
              /\ seen' = seen \cup {<<"lut", ev.v>>}
EndRun == /\ l <= Len(Trc) /\ k > 0 /\ k = Len(Trc[l].states)
          /\ Go /\ UNCHANGED seen
Next == Batch \/ Run \/ EndRun
Spec == Init /\ [][Next]_vars

NetOK == k > 0 => \A i \in 1..Len(net) : Cardinality(net[i]) <= Trc[l].p[2] /\ net[i] \subseteq 0..(Trc[l].p[1] - 1)
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE (IF Trc[i].op = "lut" THEN Len(Trc[i].states) ELSE 1) + Total(i - 1)
Report == l = Len(Trc) + 1 => PrintT(<<"SEEN", seen>>)
Accepted == TLCGet("stats").diameter - 1 = Total(Len(Trc))
=============================================================================
