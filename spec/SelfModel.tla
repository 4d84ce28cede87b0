------------------------------ MODULE SelfModel -----------------------------
(***************************************************************************)
(* The self test as a process that takes the comparisons one by one, in    *)
(* any order, with any results of the type and of the reference.  When all *)
(* pairs were taken, the verdict is exactly that some comparison disagreed *)
(* and the account adds up.                                                *)
(***************************************************************************)
EXTENDS SelfTest
CONSTANTS OPS, NIN
VARIABLES todo, account, wrong
vars == <<todo, account, wrong>>
Results == {<<0, 0, 0, 0>>, <<0, 1, 0, 0>>, <<1, 0, 1, 1>>, <<1, 1, 1, 1>>, <<2, 0, 0, 0>>, <<2, 1, 0, 0>>, <<3, 0, 0, 0>>}
Outcomes(op) == IF op \in Relations THEN BOOLEAN ELSE Results
Init == todo = OPS \X (1..NIN) \X (1..NIN) /\ account = NewAccount /\ wrong = 0
Take == \E t \in todo : \E got, want \in Outcomes(t[1]) :
            /\ todo' = todo \ {t}
            /\ account' = Enter(account, t[1], Agree(t[1], got, want), 1)
            /\ wrong' = wrong + (IF Agree(t[1], got, want) THEN 0 ELSE 1)
Next == Take
Spec == Init /\ [][Next]_vars

AgreeIsEquivalence == \A x, y, z \in Results : /\ SameValue(x, x)
                                               /\ SameValue(x, y) <=> SameValue(y, x)
                                               /\ SameValue(x, y) /\ SameValue(y, z) => SameValue(x, z)
OnlyZerosMerge == Cardinality({{y \in Results : SameValue(x, y)} : x \in Results}) = Cardinality(Results) - 1
Counts == /\ Summary(account).results = wrong
          /\ Summary(account).total = Cardinality(OPS) * NIN * NIN - Cardinality(todo)
          /\ \A op \in Operations : account[op].failed \in 0..account[op].total
Judged == Verdict(account) <=> wrong > 0
Complete == todo = {} => \A op \in OPS : account[op].total = NIN * NIN
Facts == AgreeIsEquivalence /\ OnlyZerosMerge
ASSUME Facts
=============================================================================
