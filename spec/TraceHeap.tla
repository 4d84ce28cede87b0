------------------------------ MODULE TraceHeap -----------------------------
(***************************************************************************)
(* Trace specification for bit heaps and row heaps.  A line is a program   *)
(*    [op: "bh" or "rh", v, prog: <<step, ...>>, c: <<case, ...>>]         *)
(* whose every step makes one heap; a case is <<inputs, observations>>     *)
(* with an observation                                                     *)
(*    bit heap: <<columns, total, collapsed, text>>                        *)
(*    row heap: <<<<width, rows>>, total, collapsed>>                      *)
(* for every step.  collapsed is <<-1>> where the heap is not flat enough, *)
(* text << >> where it was not recorded.  An observation <<-1>> is a step  *)
(* that did not return.                                                    *)
(***************************************************************************)
EXTENDS Heaps, TLC, TLCExt, Json, IOUtils, Sequences

Trc == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen
vars == <<l, seen>>

BHOk(s, ins, obs, i) ==
    LET o == obs[i]  h == o[1]
    IN  IF o = <<-1>> THEN FALSE
        ELSE /\ BHWell(h)
             /\ BHStep(s, ins, [j \in 1..(i-1) |-> obs[j][1]], h)
             /\ o[2] = BHTotal(h)
             /\ o[3] = IF BHHeight(h) <= 2 THEN BHTotal(h) ELSE <<-1>>
             /\ (o[4] = << >> \/ o[4] = BHText(h))
RHOk(s, ins, obs, i) ==
    LET o == obs[i]  h == o[1]
    IN  IF o = <<-1>> THEN FALSE
        ELSE /\ RHWell(h)
             /\ RHStep(s, ins, [j \in 1..(i-1) |-> obs[j][1]], h)
             /\ o[2] = RHTotal(h)
             /\ o[3] = IF Len(h[2]) = 2 THEN RHTotal(h) ELSE <<-1>>
StepOk(ev, c, i) == IF ev.op = "bh" THEN BHOk(ev.prog[i], c[1], c[2], i) ELSE RHOk(ev.prog[i], c[1], c[2], i)

Check(n) ==
    LET ev == Trc[l]  c == ev.c[n]
        bad == {i \in 1..Len(ev.prog) : ~StepOk(ev, c, i)}
    IN  IF Len(c[2]) = Len(ev.prog) /\ bad = {} THEN TRUE
        ELSE /\ PrintT(<<"MISMATCH", "line", l, "case", n, "program", ev.prog, "steps", bad, "recorded", c>>)
             /\ FALSE

Init == l = 1 /\ seen = {}
Next == /\ l <= Len(Trc)
        /\ (\A n \in 1..Len(Trc[l].c) : Check(n)) = TRUE
        /\ l' = l + 1
        /\ seen' = seen \cup {<<Trc[l].op, Trc[l].prog[i].k>> : i \in 1..Len(Trc[l].prog)}
Spec == Init /\ [][Next]_vars

Report == l = Len(Trc) + 1 => PrintT(<<"SEEN", seen>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trc)
=============================================================================
