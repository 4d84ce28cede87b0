---------------------------- MODULE TraceLockstep ---------------------------
(***************************************************************************)
(* Trace specification for lockstep runs: every line of a recording is     *)
(*    [v, types, init: files, steps: <<[op, d, s, p, regs: files], ...>>]  *)
(* where files holds one register file per copy.  A step that did not      *)
(* return in some copy has regs = <<9>>, which is never allowed.           *)
(***************************************************************************)
EXTENDS Lockstep, TLCExt, Json, IOUtils

Trc == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* line
          k,      \* step that comes next
          files,  \* the register files
          seen
vars == <<l, k, files, seen>>

Files0(i) == IF i <= Len(Trc) THEN Trc[i].init ELSE << >>
Init == l = 1 /\ k = 1 /\ files = Files0(1) /\ seen = {}

Next == /\ l <= Len(Trc)
        /\ LET ev == Trc[l]
               ins == ev.steps[k]
               dead == Len(ins.regs) = 1
               ok == ~dead /\ Lock(ev.types, files, ins, ins.regs)
               last == k = Len(ev.steps)
           IN  /\ IF ok THEN TRUE
                  ELSE /\ PrintT(<<"MISMATCH", "line", l, "step", k, "variant", ev.v, "op", ins.op, "writes", ins.d, "reads", ins.s,
                                   "parameters", ins.p, "types", [j \in 1..Len(ins.s) |-> ev.types[ins.s[j]]],
                                   "operands", [c \in 1..Len(files) |-> [j \in 1..Len(ins.s) |-> files[c][ins.s[j]]]],
                                   "results", IF dead THEN "did not return"
                                              ELSE [c \in 1..Len(files) |-> [j \in 1..Len(ins.d) |-> ins.regs[c][ins.d[j]]]]>>)
                       /\ FALSE
               /\ l' = IF last THEN l + 1 ELSE l
               /\ k' = IF last THEN 1 ELSE k + 1
               /\ files' = IF last THEN Files0(l + 1) ELSE ins.regs
               /\ seen' = seen \cup {<<ins.op, Differ(ev.types, files, ins)>>}

Spec == Init /\ [][Next]_vars

RegsOK == l <= Len(Trc) => Defined(Trc[l].types, files) /\ Agree(Trc[l].types, files)

RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Trc[i].steps) + Total(i - 1)
Report == l = Len(Trc) + 1 => PrintT(<<"SEEN", seen>>)
Accepted == TLCGet("stats").diameter - 1 = Total(Len(Trc))
=============================================================================
