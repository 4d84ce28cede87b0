------------------------------- MODULE TraceFW ------------------------------
(***************************************************************************)
(* Trace specification for the fixed-width numbers: every line is either a *)
(* batch of calls of one operation                                         *)
(*    [op, v, ws, w, p, c]  with cases <<operands..., result, unchanged>>  *)
(* (unchanged: the operands still hold what they held before the call), or *)
(* one run of a program on the register machine of FWUint,                 *)
(*    [op: "run", widths, init, steps: <<[op, d, s, p, n, regs], ...>>]    *)
(* whose every recorded register file must be the successor of the one     *)
(* before.  Results are recorded with all the bits of their storage, so    *)
(* bits beyond the width are seen.  <<-1>> is a call that did not return,  *)
(* <<-2>> one that threw.                                                  *)
(***************************************************************************)
EXTENDS FWUint, TLC, TLCExt, Json, IOUtils

Trc == ndJsonDeserialize(IOEnv.TRACE)
Known == IF "KNOWN" \in DOMAIN IOEnv
         THEN LET k == ndJsonDeserialize(IOEnv.KNOWN)
              IN  {<<k[i].op, k[i].v, k[i].ws, k[i].x>> : i \in 1..Len(k)}
         ELSE {}

VARIABLES l,      \* line
          k,      \* step of the program of this line that comes next (0: not a program)
          regs,   \* its registers
          seen
vars == <<l, k, regs, seen>>

Args(c) == SubSeq(c, 1, Len(c) - 2)
Res(c) == c[Len(c) - 1]

Allowed(ev, c) ==
    LET r == Res(c)  a == Args(c)
    IN  CASE ev.op = "bin" -> IF IsBin(ev.w, a[1]) THEN r = ParseBin(a[1]) ELSE r = <<-2>>
          [] ev.op = "dec" -> r = ParseDec(a[1])
          [] ev.op = "mpzin" -> IF BitLen(a[1]) <= ev.w THEN r = a[1] ELSE r = <<-2>>
          [] ev.op = "dbl" -> IsEncoding(DOUBLE, IntExact(a[1]), r)
          [] ev.op = "rand" -> IsBigNat(r) /\ BitLen(r) <= ev.w
          [] OTHER -> r = FWApply(ev.op, ev.ws, ev.w, ev.p, a)

Ok(ev, c) == c[Len(c)] = 1 /\ Allowed(ev, c)

Expect(ev, c) == IF ev.op \in {"bin", "dec", "mpzin", "dbl", "rand"} THEN <<"see specification">>
                 ELSE FWApply(ev.op, ev.ws, ev.w, ev.p, Args(c))

Check(i) ==
    LET ev == Trc[l]  c == ev.c[i]
    IN  IF Ok(ev, c) THEN TRUE
        ELSE IF Known # {} /\ <<ev.op, ev.v, ev.ws, Args(c)>> \in Known
        THEN PrintT(<<"KNOWN", ev.op, ev.v, c>>)
        ELSE /\ PrintT(<<"MISMATCH", "line", l, "case", i, "op", ev.op, "variant", ev.v, "widths", ev.ws, ev.w,
                         "params", ev.p, "recorded", c, "allowed", Expect(ev, c)>>)
             /\ FALSE

Start(i) == IF i <= Len(Trc) /\ Trc[i].op = "run" THEN 1 ELSE 0
Regs0(i) == IF Start(i) = 1 THEN Trc[i].init ELSE << >>

Init == l = 1 /\ k = Start(1) /\ regs = Regs0(1) /\ seen = {}

Batch == /\ l <= Len(Trc) /\ k = 0
         /\ (\A i \in 1..Len(Trc[l].c) : Check(i)) = TRUE
         /\ l' = l + 1 /\ k' = Start(l + 1) /\ regs' = Regs0(l + 1)
         /\ seen' = seen \cup {<<Trc[l].op>>}

\* One instruction: the machine takes a step and the recording shows the same
\* registers.  After the last instruction the next line starts, with its own registers.
Instr == /\ l <= Len(Trc) /\ k > 0
         /\ LET ev == Trc[l]  ins == ev.steps[k]  nx == FWStep(ev.widths, regs, ins)
                last == k = Len(ev.steps)
            IN  /\ IF ins.regs = nx THEN TRUE
                   ELSE /\ PrintT(<<"MISMATCH", "line", l, "step", k, "instruction", ins,
                                    "before", regs, "allowed", nx>>)
                        /\ FALSE
                /\ l' = IF last THEN l + 1 ELSE l
                /\ k' = IF last THEN Start(l + 1) ELSE k + 1
                /\ regs' = IF last THEN Regs0(l + 1) ELSE nx
                /\ seen' = seen \cup {<<"run", ins.op>>}
Next == Batch \/ Instr

Spec == Init /\ [][Next]_vars

\* The registers of the machine are always numbers of their widths.
RegsOK == k > 0 => FWTypeOK(Trc[l].widths, regs)
Steps(i) == IF Trc[i].op = "run" THEN Len(Trc[i].steps) ELSE 1
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Steps(i) + Total(i - 1)
Report == l = Len(Trc) + 1 => PrintT(<<"SEEN", seen>>)
Accepted == TLCGet("stats").diameter - 1 = Total(Len(Trc))
=============================================================================
