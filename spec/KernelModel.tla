----------------------------- MODULE KernelModel ----------------------------
(***************************************************************************)
(* Every history of a reduction: an accumulator of format FMT and terms    *)
(* chosen freely from all its values.                                      *)
(***************************************************************************)
EXTENDS Kernels
CONSTANTS E, F, N
fmt == <<E, F>>
T == <<0, E, F>>
Inputs == {VZero(0), VZero(1), VInf(0), VInf(1), VNaN} \cup
          {<<NORM, s, e, IF f = 0 THEN << >> ELSE FromInt(f)>> : s \in 0..1, e \in 0..MaxExpF(fmt), f \in 0..(P2[F] - 1)}

VARIABLES acc,      \* the value in the accumulator
          hist      \* what has been added: number of terms, whether all were non-negative, classes met
vars == <<acc, hist>>
Val == Exact(fmt, acc)
Init == acc = Canon(Finish(fmt, Start)) /\ hist = [n |-> 0, nonneg |-> TRUE, nan |-> FALSE, pinf |-> FALSE, ninf |-> FALSE, zero |-> TRUE]
AddTerm(v) ==
    /\ hist.n < N
    /\ acc' = Finish(fmt, Accumulate(T, Val, Exact(fmt, v)))
    /\ hist' = [n |-> hist.n + 1,
                nonneg |-> hist.nonneg /\ (v[1] = ZERO \/ v[2] = 0),
                nan |-> hist.nan \/ v[1] = NAN,
                pinf |-> hist.pinf \/ (v[1] = INF /\ v[2] = 0),
                ninf |-> hist.ninf \/ (v[1] = INF /\ v[2] = 1),
                zero |-> hist.zero /\ v[1] = ZERO]
Next == \E v \in Inputs : AddTerm(v)
Spec == Init /\ [][Next]_vars

WellKept == WellFormed(fmt, acc) /\ Canon(acc) = acc
\* An accumulator that starts as +0 never becomes -0 by adding zeros.
ZeroStays == hist.zero => acc = VZero(0)
\* NaN and infinities stay: NaN once met, infinities of one sign unless the other comes.
Absorbing == /\ hist.nan => acc[1] = NAN
             /\ (~hist.nan /\ hist.pinf /\ hist.ninf) => acc[1] = NAN
NonNegative == (hist.nonneg /\ ~hist.nan) => (acc[1] # NAN /\ acc[2] = 0)
\* Non-negative terms never make the sum smaller.
Grows == [][(hist'.nonneg /\ ~hist'.nan) => FpCmp(fmt, acc, fmt, acc') \in {-1, 0}]_vars
\* A sum of two does not depend on their order.
Swaps == \A v \in Inputs : Accumulate(T, Val, Exact(fmt, v)) = Accumulate(T, Exact(fmt, v), Val)
=============================================================================
