------------------------------ MODULE TraceFix ------------------------------
(***************************************************************************)
(* Trace specification for fixed-point numbers: every line is a batch of   *)
(* calls  [op, v, f, r, p, c]  with the formats f of the operands, the     *)
(* format r the result was found to have, and cases <<operands..., result, *)
(* flag>> (flag: 1 where the operation reports a number that did not fit,  *)
(* 0 where it has none).  A flag of 9 is a call that did not return.       *)
(***************************************************************************)
EXTENDS FixPoint, IEEE754, TLC, TLCExt, Json, IOUtils

Trc == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen
vars == <<l, seen>>

Plain(v) == <<v, 0>>
Allowed(ev, c) ==
    LET f == ev.f[1]  x == c[1]  got == <<c[Len(c) - 1], c[Len(c)]>>  r == ev.r
    IN  CASE ev.op = "mul"   -> r = FixMulF(f, ev.f[2]) /\ got = Plain(Mul(x, c[2]))
          [] ev.op = "sub"   -> r = FixSubF(f, ev.f[2]) /\ got = Plain(FixSub(f, x, ev.f[2], c[2]))
          [] ev.op = "scale" -> r = <<f[1] + ev.p[1], f[2] + ev.p[1]>> /\ got = Plain(x)
          [] ev.op = "round" -> r = <<f[1], ev.p[1]>> /\ got = FixRound(f, x, ev.p[1])
          [] ev.op = "trunc" -> r = <<f[1], ev.p[1]>> /\ got = Plain(FixTrunc(f, x, ev.p[1])[1])
          [] ev.op = "drop"  -> r = <<ev.p[1], f[2]>> /\ got = FixDrop(f, x, ev.p[1])
          [] ev.op = "make"  -> r = f /\ got = Plain(x)
          [] ev.op = "step"  -> LET n == FixNewton(f, x, ev.f[2], c[2], r)
                                IN  IF n = << >> THEN TRUE ELSE got = Plain(n[1])
          [] ev.op = "start" -> got[2] = 0 /\ IsFix(r, got[1]) /\ FixStart(got[1], r[2], x, f[2])
          [] ev.op = "nearest" -> got[2] = 0 /\ IsFix(r, got[1]) /\ FixInvNear(got[1], r[2], x, f[2], 1, 1)
          [] ev.op = "faithful" -> got[2] = 0 /\ IsFix(r, got[1]) /\ FixInvNear(got[1], r[2], x, f[2], 1, 0)
          [] ev.op = "double" -> got[2] = 0 /\ IsEncoding(<<11, 52>>, IF x = << >> THEN Special(VZero(0)) ELSE Dyadic(0, x, f[2]), got[1])

Check(i) ==
    LET ev == Trc[l]  c == ev.c[i]
    IN  IF Allowed(ev, c) THEN TRUE
        ELSE /\ PrintT(<<"MISMATCH", "line", l, "case", i, "op", ev.op, "variant", ev.v, "formats", ev.f, ev.r,
                         "params", ev.p, "recorded", c>>)
             /\ FALSE

Init == l = 1 /\ seen = {}
Next == /\ l <= Len(Trc)
        /\ (\A i \in 1..Len(Trc[l].c) : Check(i)) = TRUE
        /\ l' = l + 1
        /\ seen' = seen \cup {<<Trc[l].op, Trc[l].v>>}
Spec == Init /\ [][Next]_vars
Report == l = Len(Trc) + 1 => PrintT(<<"SEEN", seen>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trc)
=============================================================================
