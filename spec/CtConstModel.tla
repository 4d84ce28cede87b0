---------------------------- MODULE CtConstModel ----------------------------
(***************************************************************************)
(* Small instances of the order of fixed-point constants: a is compared    *)
(* while the pair is scaled step by step; the order is that of integers,   *)
(* total, antisymmetric, transitive, and kept by scaling and re-expressing.*)
(***************************************************************************)
EXTENDS CtConst, Integers
CONSTANTS N, E
VARIABLES a, b, c, k
vars == <<a, b, c, k>>
Int_(x) == IF x[1] = 1 THEN 0 - ToInt(x[2]) ELSE ToInt(x[2])
Vals == {<<e, Signed(i)>> : e \in -E..E, i \in -N..N}
Init == a \in Vals /\ b \in Vals /\ c \in {<<e, Signed(i)>> : e \in {-E, 0}, i \in {-1, 0, 1, 2}} /\ k = 0
\* a's value, written over a smaller exponent
Lower == k < 2 /\ a' = <<a[1] - 1, SShl(a[2], 1)>> /\ k' = k + 1 /\ UNCHANGED <<b, c>>
Next == Lower
Spec == Init /\ [][Next]_vars
P(n) == ToInt(Pow2(n))
Whole(x) == Int_(x[2]) * P(x[1] + E + 2)
Sign(i) == IF i < 0 THEN -1 ELSE IF i > 0 THEN 1 ELSE 0
IsOrder == FixCmp(a, b) = Sign(Whole(a) - Whole(b)) /\ FixCmp(b, a) = 0 - FixCmp(a, b)
Transitive == FixCmp(a, b) <= 0 /\ FixCmp(b, c) <= 0 => FixCmp(a, c) <= 0
Shifts == \A n \in 0..3 : LET d == Int_(SShr(a[2], n))  i == Int_(a[2])
                          IN  d * P(n) <= i /\ i < (d + 1) * P(n) /\ IsSigned(SShr(a[2], n))
=============================================================================
