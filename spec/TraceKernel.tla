----------------------------- MODULE TraceKernel ----------------------------
(***************************************************************************)
(* Trace specification: every line is a shipped program run on a batch of  *)
(* inputs.  A case is <<inputs, ..., result>>:                             *)
(*   sum     <<xs, r>>          accumulator type ta, inputs tx, result tr  *)
(*   dot     <<xs, ys, r>>      products in type tm                        *)
(*   dot4    <<xs, ys, r>>                                                 *)
(*   matmul  <<xs, ys, rs>>     n by n                                     *)
(*   sumu2, matmulu2            two terms at a time                        *)
(*   bal4, left4 <<xs, r>>      four values                                *)
(*   words   <<ws, r>>          w bits                                     *)
(* A result of class 9 is a call that did not return.                      *)
(***************************************************************************)
EXTENDS Kernels, TLCExt, Json, IOUtils

Trc == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen
vars == <<l, seen>>

Vals(t, xs) == [i \in 1..Len(xs) |-> Value(t, xs[i])]
Stop(r) == r[1] = 9
Is1(ev, x, r) == IF Stop(r) THEN FALSE ELSE Becomes(ev.tr, x, r)
Ok(ev, c) ==
    CASE ev.op = "sum"  -> Is1(ev, SumOf(ev.ta, Vals(ev.tx, c[1])), c[2])
      [] ev.op = "dot"  -> Is1(ev, DotOf(ev.ta, ev.tm, Vals(ev.tx, c[1]), Vals(ev.ty, c[2])), c[3])
      [] ev.op = "dot4" -> Is1(ev, Dot4Of(ev.ta, ev.tm, Vals(ev.tx, c[1]), Vals(ev.ty, c[2])), c[3])
      [] ev.op = "sumu2" -> Is1(ev, PairsOf(ev.ta, Vals(ev.tx, c[1])), c[2])
      [] ev.op = "bal4"  -> Is1(ev, Balanced(ev.ta, Vals(ev.tx, c[1])), c[2])
      [] ev.op = "left4" -> Is1(ev, FromRight(ev.ta, Vals(ev.tx, c[1])), c[2])
      [] ev.op \in {"matmul", "matmulu2"} ->
             LET xs == Vals(ev.tx, c[1])  ys == Vals(ev.ty, c[2])
             IN  IF c[3] # << >> /\ c[3][1][1] = 9 THEN FALSE
                 ELSE Len(c[3]) = ev.n * ev.n /\
                      \A k \in 1..Len(c[3]) :
                          Is1(ev, IF ev.op = "matmul" THEN EntryOf(ev.ta, ev.tm, ev.n, xs, ys, k)
                                  ELSE PairEntryOf(ev.ta, ev.tm, ev.n, xs, ys, k), c[3][k])
      [] ev.op = "words" -> c[2] = WordSum(ev.w, c[1])
      [] OTHER -> FALSE

Check(n) ==
    LET ev == Trc[l]  c == ev.c[n]
    IN  IF Ok(ev, c) THEN TRUE
        ELSE /\ PrintT(<<"MISMATCH", "line", l, "case", n, ev.op, ev.v, "recorded", c>>)
             /\ FALSE

Init == l = 1 /\ seen = {}
Next == /\ l <= Len(Trc)
        /\ (\A n \in 1..Len(Trc[l].c) : Check(n)) = TRUE
        /\ l' = l + 1
        /\ seen' = seen \cup {<<Trc[l].op, Trc[l].v>>}
Spec == Init /\ [][Next]_vars

Report == l = Len(Trc) + 1 => PrintT(<<"SEEN", seen>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trc)
=============================================================================
