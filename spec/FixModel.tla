------------------------------ MODULE FixModel ------------------------------
(***************************************************************************)
(* Laws of the fixed-point definitions, for every number of small formats. *)
(* Against plain integer arithmetic: TLC's own naturals.                   *)
(***************************************************************************)
EXTENDS FixPoint, TLC

CONSTANTS Bits
VARIABLES x, y, d
N(i) == FromInt(i)
I(m) == ToInt(m)
Sq(i) == i * i
AbsI(i) == IF i < 0 THEN 0 - i ELSE i
TwoTo(k) == I(Pow2(k))

Init == x = 0 /\ y = 0 /\ d = 0
\* every x, y below 2^Bits and every number of places
Next == \/ d < Bits + 1 /\ d' = d + 1 /\ UNCHANGED <<x, y>>
        \/ d = Bits + 1 /\ y < TwoTo(Bits) - 1 /\ y' = y + 1 /\ d' = 0 /\ x' = x
        \/ d = Bits + 1 /\ y = TwoTo(Bits) - 1 /\ x < TwoTo(Bits) - 1 /\ x' = x + 1 /\ y' = 0 /\ d' = 0
Spec == Init /\ [][Next]_<<x, y, d>>

\* No multiple of the unit is nearer, and of two as near the even one is taken.
NearestOk == LET u == TwoTo(d)  q == I(Nearest(N(x), d))
             IN  /\ \A p \in 0..(TwoTo(Bits) + 1) : AbsI(q * u - x) <= AbsI(p * u - x)
                 /\ (2 * AbsI(q * u - x) = u) => q % 2 = 0
DownOk == LET u == TwoTo(d)  q == I(Down(N(x), d)) IN q * u <= x /\ x < (q + 1) * u
\* Rounding to a finer unit, cutting and scaling lose nothing that can be represented.
FinerOk == /\ FixRound(<<0, 0>>, N(x % 2), 0 - d) = <<Shl(N(x % 2), d), 0>>
           /\ LET w == Mx(1, d) IN FixDrop(<<Bits - 1, 0>>, N(x), w - 1) = <<N(x % TwoTo(w)), IF x >= TwoTo(w) THEN 1 ELSE 0>>
\* Subtraction is the inverse of addition modulo the width, over any two formats.
SubOk == LET f == <<Bits - 1, 0>>  g == <<Bits - 1 - d, 0 - d>>  r == FixSubF(f, g)  w == FixW(r)
             z == FixSub(f, N(x), g, N(y))
         IN  IsFix(r, z) /\ Low(Add(z, N(y)), w) = Low(Shl(N(x), d), w)
\* y * step(z) = 1 - (1 - z y)^2: the exact step squares the relative error.
NewtonOk == LET u == d + 2 * Bits     \* z = x / 2^Bits, y / 2^d
                r == <<8, 0 - u>>
                n == FixNewton(<<0, 0 - Bits>>, N(x), <<0, 0 - d>>, N(y), r)
            IN  n # << >> => y * I(n[1]) = TwoTo(u + d) - Sq(TwoTo(Bits + d) - x * y)
\* 1/y has one or two faithful values, and one exactly when it is representable.
FaithfulOk == y > 0 =>
    LET k == 2 * Bits  \* 1/(y / 2^d) over the unit 2^-k
        s == {i \in 0..TwoTo(k + d) : FixInvNear(N(i), 0 - k, N(y), 0 - d, 1, 0)}
    IN  (x = 0 /\ d <= 3 /\ y >= TwoTo(d)) => IF TwoTo(k + d) % y = 0 THEN s = {TwoTo(k + d) \div y}
                                ELSE s = {TwoTo(k + d) \div y, TwoTo(k + d) \div y + 1}
=============================================================================
