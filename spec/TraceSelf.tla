------------------------------ MODULE TraceSelf -----------------------------
(***************************************************************************)
(* Recordings of test_policy<P>::test_arithmetic.  A line gives the        *)
(* distinct operands and how often each is in the list of inputs (a,       *)
(* [value, times]), for each operation the number of calls the type saw    *)
(* and of distinct pairs among them (calls), the planted disagreements (c, *)
(* [a, b, got, want], grouped by operation), and what the run reported.    *)
(*   begin   a new run: inputs, calls                                      *)
(*   plant   results of one operation which differ from the reference's    *)
(*   report  the printed account and the returned verdict                  *)
(***************************************************************************)
EXTENDS SelfTest, TLC, TLCExt, Json, IOUtils

Trc == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, times, account, seen
vars == <<l, times, account, seen>>

Reject(ev, i) == PrintT(<<"MISMATCH", "line", l, "op", ev.op, "variant", ev.v, "recorded", ev, "account", account>>) /\ FALSE
Must(cond, ev, i) == IF cond THEN TRUE ELSE Reject(ev, i)

RECURSIVE Total(_, _)
Total(s, i) == IF i = 0 THEN 0 ELSE s[i][2] + Total(s, i - 1)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]

RECURSIVE Weight(_, _, _)
Weight(ev, i, acc) ==        \* disagreeing results, each as often as its pair occurs
    IF i = 0 THEN acc
    ELSE Weight(ev, i - 1, acc + (IF Agree(ev.what, ev.c[i][3], ev.c[i][4]) THEN 0
                                  ELSE times[ev.c[i][1]] * times[ev.c[i][2]]))

Begin(ev) ==
    LET n == Total(ev.a, Len(ev.a)) IN
    /\ times' = [i \in 1..Len(ev.a) |-> ev.a[i][2]]
    /\ account' = [op \in Operations |-> [failed |-> 0, total |-> n * n]]

\* Every operand pair reached every operation.
BeginOk(ev) ==
    LET n == Total(ev.a, Len(ev.a)) IN
    /\ ev.rc = 0
    /\ n >= ev.n
    /\ \A op \in Operations : ev.calls[op][1] >= n * n /\ ev.calls[op][2] = Len(ev.a) * Len(ev.a)

Plant(ev) == /\ account' = [account EXCEPT ![ev.what] = [@ EXCEPT !.failed = @ + Weight(ev, Len(ev.c), 0)]]
             /\ UNCHANGED times

ReportOk(ev) ==
    /\ \A op \in Operations : IF account[op].failed > 0
                              THEN op \in DOMAIN ev.failed /\ ev.failed[op] = <<account[op].failed, account[op].total>>
                              ELSE op \notin DOMAIN ev.failed
    /\ ev.summary = <<Summary(account).ops, Summary(account).of, Summary(account).results, Summary(account).total>>
    /\ ev.verdict = Verdict(account)

Accept(ev) ==
    CASE ev.op = "begin" -> Must(BeginOk(ev), ev, 0)
      [] ev.op = "plant" -> TRUE
      [] ev.op = "report" -> Must(ReportOk(ev), ev, 0)
      [] OTHER -> FALSE

Init == l = 1 /\ times = << >> /\ account = NewAccount /\ seen = {}
Next == /\ l <= Len(Trc)
        /\ Accept(Trc[l])
        /\ l' = l + 1
        /\ (CASE Trc[l].op = "begin" -> Begin(Trc[l])
              [] Trc[l].op = "plant" -> Plant(Trc[l])
              [] OTHER -> UNCHANGED <<times, account>>)
        /\ seen' = seen \cup (IF Trc[l].op = "report" THEN {<<Trc[l].v, Cardinality(FailedOps(account))>>} ELSE {})
Spec == Init /\ [][Next]_vars
Report == l = Len(Trc) + 1 => PrintT(<<"SEEN", seen>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trc)
=============================================================================
