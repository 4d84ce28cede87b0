------------------------------- MODULE Sources ------------------------------
(***************************************************************************)
(* Where operands come from: random bits, random values of chosen classes, *)
(* and the list of standard inputs.                                        *)
(***************************************************************************)
EXTENDS FPOps, FiniteSets

-----------------------------------------------------------------------------
(* Random bits.  The W bits asked for are W different bits of the words    *)
(* the generator yields, perhaps inverted: flipping any bit of the words   *)
(* flips exactly one bit of the value or none, and every bit of the value  *)
(* answers to exactly one bit of the words.  So uniform words give uniform *)
(* values.                                                                 *)
IsOneBit(d) == d # << >> /\ d = Pow2(BitLen(d) - 1)
Diffs(base, flipped) == [i \in 1..Len(flipped) |-> Xor(base, flipped[i])]
IsBitSource(W, base, flipped) ==
    LET d == Diffs(base, flipped)
        used == {i \in 1..Len(d) : d[i] # << >>}
    IN  /\ BitLen(base) <= W
        /\ \A i \in used : IsOneBit(d[i]) /\ BitLen(d[i]) <= W
        /\ Cardinality(used) = W
        /\ \A i, j \in used : i # j => d[i] # d[j]
\* The value for words given as the set of their one bits.
RECURSIVE XorAll(_, _, _)
XorAll(d, ones, acc) == IF ones = << >> THEN acc ELSE XorAll(d, Tail(ones), Xor(acc, d[Head(ones) + 1]))
Drawn(base, flipped, ones) == XorAll(Diffs(base, flipped), ones, base)

-----------------------------------------------------------------------------
(* A source of values of chosen classes: the state is the set of classes   *)
(* still enabled.                                                          *)
Classes == 0..6                 \* +0 -0 +normal -normal +inf -inf NaN
Weight(k) == IF k \in {2, 3} THEN 64 ELSE 1
ClassIndex(v) == IF v[1] = NAN THEN 6
                 ELSE (CASE v[1] = ZERO -> 0 [] v[1] = NORM -> 2 [] v[1] = INF -> 4) + v[2]
AllClasses == Classes
Disable(on, k) == on \ {k}
RECURSIVE Total(_)
Total(on) == IF on = {} THEN 0 ELSE LET k == CHOOSE q \in on : TRUE IN Weight(k) + Total(on \ {k})

DrawOk(fmt, on, r) == r[1] \in 0..3 /\ WellFormed(fmt, r) /\ ClassIndex(r) \in on

\* Of n draws spread evenly over the generator's range, every enabled class
\* gets its share, give or take the ends of its part of the range.
SharesOk(on, n, count) ==
    /\ \A k \in Classes \ on : count[k + 1] = 0
    /\ \A k \in on : LET lo == (n * Weight(k)) \div Total(on) - 2
                         hi == (n * Weight(k)) \div Total(on) + 3
                     IN  count[k + 1] \in lo..hi

-----------------------------------------------------------------------------
(* The standard inputs: as many as asked for, and among them the small     *)
(* integers, the specials and extremes, the neighbours of one, zero and    *)
(* infinity, and the powers of two around one, of both signs.              *)
Signed(S) == S \cup {FlipSign(v) : v \in S}
SmallInts(fmt) == {Finish(fmt, Dyadic(0, FromInt(k), 0)) : k \in 1..10}
RECURSIVE Steps(_, _, _, _)
Steps(fmt, v, n, up) == IF n = 0 THEN {}
                        ELSE LET w == IF up THEN NextUp(fmt, v) ELSE NextDown(fmt, v)
                             IN  {w} \cup Steps(fmt, w, n - 1, up)
Extremes(fmt) == {VZero(0), VInf(0), Named(fmt, "min"), Named(fmt, "max")}
Powers(fmt) == {Finish(fmt, Dyadic(0, <<1>>, k)) : k \in (-fmt[2] - 5)..(fmt[2] + 6)}
Standard(fmt) == Signed(SmallInts(fmt) \cup Extremes(fmt) \cup Steps(fmt, VOne(fmt), 10, TRUE)
                        \cup Steps(fmt, VOne(fmt), 10, FALSE) \cup Steps(fmt, Named(fmt, "min"), 10, TRUE)
                        \cup Steps(fmt, Named(fmt, "max"), 10, FALSE) \cup Powers(fmt))
InputsOk(fmt, n, vs) ==
    /\ Len(vs) >= n
    /\ \A i \in 1..Len(vs) : vs[i][1] \in 0..3 /\ WellFormed(fmt, vs[i])
    /\ Standard(fmt) \subseteq {Canon(vs[i]) : i \in 1..Len(vs)}
=============================================================================
