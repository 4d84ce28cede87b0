----------------------------- MODULE TraceMachine ---------------------------
(***************************************************************************)
(* Trace specification for programs: every line of a recording is one run  *)
(*    [v, types, init, steps: <<[op, d, s, p, regs], ...>>]                *)
(* whose every recorded register file must be one the machine of FPMachine *)
(* can reach in one step from the one before.  A register file <<9, rc>>   *)
(* is a step that did not return; none is allowed.                         *)
(***************************************************************************)
EXTENDS FPMachine, TLCExt, Json, IOUtils

Trc == ndJsonDeserialize(IOEnv.TRACE)
Known == IF "KNOWN" \in DOMAIN IOEnv
         THEN LET k == ndJsonDeserialize(IOEnv.KNOWN)
              IN  {<<k[i].op, k[i].v, k[i].x>> : i \in 1..Len(k)}
         ELSE {}

VARIABLES l,      \* line
          k,      \* step that comes next
          regs,   \* the registers
          seen
vars == <<l, k, regs, seen>>

Regs0(i) == IF i <= Len(Trc) THEN Trc[i].init ELSE << >>
Init == l = 1 /\ k = 1 /\ regs = Regs0(1) /\ seen = {}

Operands(ins) == [j \in 1..Len(ins.s) |-> regs[ins.s[j]]]

Next == /\ l <= Len(Trc)
        /\ LET ev == Trc[l]
               ins == ev.steps[k]
               dead == ins.regs[1] = <<9>>
               ok == ~dead /\ Step(ev.types, regs, ins, ins.regs)
               last == k = Len(ev.steps)
           IN  /\ IF ok THEN TRUE
                  ELSE IF Known # {} /\ <<ins.op, ev.v, Operands(ins)>> \in Known
                  THEN PrintT(<<"KNOWN", ins.op, ev.v, Operands(ins)>>)
                  ELSE /\ PrintT(<<"MISMATCH", "line", l, "step", k, "variant", ev.v, "op", ins.op, "writes", ins.d, "reads", ins.s,
                                   "parameters", ins.p, "types", [j \in 1..Len(ins.s) |-> ev.types[ins.s[j]]],
                                   "operands", Operands(ins),
                                   "wrong registers", IF dead THEN "did not return"
                                                      ELSE {<<i, ev.types[i], ins.regs[i]>> : i \in Wrong(ev.types, regs, ins, ins.regs)}>>)
                       /\ FALSE
               /\ l' = IF last THEN l + 1 ELSE l
               /\ k' = IF last THEN 1 ELSE k + 1
               /\ regs' = IF last THEN Regs0(l + 1) ELSE ins.regs
               /\ seen' = seen \cup {<<ins.op, StepKind(ev.types, regs, ins, ev.types[ins.d[1]])>>}

Spec == Init /\ [][Next]_vars

\* Every register always holds a well-formed value of its type.
RegsOK == l <= Len(Trc) => TypeOK(Trc[l].types, regs)

RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Trc[i].steps) + Total(i - 1)
Report == l = Len(Trc) + 1 => PrintT(<<"SEEN", seen>>)
Accepted == TLCGet("stats").diameter - 1 = Total(Len(Trc))
=============================================================================
