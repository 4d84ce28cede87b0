----------------------------- MODULE TraceSource ----------------------------
(***************************************************************************)
(* Recordings of the operand sources.  Each line is one of                 *)
(*   bits    a random word source driven by scripted words: the value for  *)
(*           words of zeros, for each single bit set, and for other words  *)
(*   new, disable, draw, sweep   the life of one source of values          *)
(*   inputs  the list of standard inputs                                   *)
(*   call    a function applied to an array of arguments                   *)
(***************************************************************************)
EXTENDS Sources, TLC, TLCExt, Json, IOUtils

Trc == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, on, seen
vars == <<l, on, seen>>

Reject(ev, i) == PrintT(<<"MISMATCH", "line", l, "case", i, "op", ev.op, "variant", ev.v,
                          "recorded", IF i > 0 THEN ev.c[i] ELSE <<"the whole line">>, "allowed", on>>) /\ FALSE

Must(cond, ev, i) == IF cond THEN TRUE ELSE Reject(ev, i)
Accept(ev) ==
    CASE ev.op \in {"new", "disable"} -> TRUE
      [] ev.op = "bits" ->
             /\ Must(IsBitSource(ev.w, ev.base, ev.flipped), ev, 0)
             /\ (\A i \in 1..Len(ev.c) : Must(Drawn(ev.base, ev.flipped, ev.c[i][1]) = ev.c[i][2], ev, i)) = TRUE
      [] ev.op = "draw" -> (\A i \in 1..Len(ev.c) : Must(DrawOk(ev.fx, on, ev.c[i][1]), ev, i)) = TRUE
      [] ev.op = "sweep" -> Must(SharesOk(on, ev.n, ev.count), ev, 0)
      [] ev.op = "inputs" -> Must(InputsOk(ev.fx, ev.n, ev.c), ev, 0)
      [] ev.op = "call" -> Must(ev.c[1] = ev.c[2], ev, 1)
      [] OTHER -> FALSE

Init == l = 1 /\ on = {} /\ seen = {}
Next == /\ l <= Len(Trc)
        /\ Accept(Trc[l])
        /\ l' = l + 1
        /\ on' = (CASE Trc[l].op = "new" -> AllClasses
                    [] Trc[l].op = "disable" -> Disable(on, Trc[l].k)
                    [] OTHER -> on)
        /\ seen' = seen \cup {<<Trc[l].op, Cardinality(on)>>}
Spec == Init /\ [][Next]_vars
Report == l = Len(Trc) + 1 => PrintT(<<"SEEN", seen>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trc)
=============================================================================
