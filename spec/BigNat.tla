------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of unbounded size.  TLC evaluates TLA+ integers in 32   *)
(* bits, so a number is represented here as a little-endian sequence of    *)
(* limbs in base 2^15, without leading (most significant) zero limbs: the  *)
(* number zero is << >>.  The representation is canonical, so equality of  *)
(* numbers is equality of sequences.                                       *)
(*                                                                         *)
(* Every operator below is an ordinary TLA+ definition and TLC can         *)
(* evaluate all of them as written (slowly).  java/BigNat.java overrides   *)
(* the expensive ones with java.math.BigInteger for speed; BigNatTest.tla  *)
(* is run both with and without the override and the results compared.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

LB   == 15                  \* bits in a limb
BASE == 32768               \* 2^LB

P2[k \in 0..30] == IF k = 0 THEN 1 ELSE 2 * P2[k-1]

Zero == << >>

IsBigNat(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(BASE-1)
               /\ Len(a) > 0 => a[Len(a)] # 0

RECURSIVE Strip(_)
Strip(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a)-1)) ELSE a

\* The BigNat of a TLC integer 0 <= n < 2^31.
RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN << >> ELSE <<n % BASE>> \o FromInt(n \div BASE)

\* The TLC integer of a BigNat below 2^31.
ToInt(a) == IF Len(a) = 0 THEN 0
            ELSE IF Len(a) = 1 THEN a[1]
            ELSE IF Len(a) = 2 THEN a[1] + BASE * a[2]
            ELSE a[1] + BASE * a[2] + BASE * BASE * a[3]

Limb(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0

MaxI(x, y) == IF x > y THEN x ELSE y

-----------------------------------------------------------------------------
(* Comparison: -1, 0 or 1. *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE CmpFrom(a, b, i-1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1
             ELSE IF Len(a) > Len(b) THEN 1
             ELSE CmpFrom(a, b, Len(a))

-----------------------------------------------------------------------------
(* Addition, and subtraction of a smaller number. *)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN << >> ELSE <<c>>)
    ELSE LET s == Limb(a, i) + Limb(b, i) + c
         IN  <<s % BASE>> \o AddFrom(a, b, i+1, s \div BASE)
Add(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
    IF i > Len(a) THEN << >>
    ELSE LET s == a[i] - Limb(b, i) - c
         IN  <<(s + BASE) % BASE>> \o SubFrom(a, b, i+1, IF s < 0 THEN 1 ELSE 0)
\* Requires a >= b.
Sub(a, b) == Strip(SubFrom(a, b, 1, 0))

-----------------------------------------------------------------------------
(* Multiplication. *)
RECURSIVE MulLimb(_, _, _, _)
MulLimb(a, m, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN << >> ELSE <<c>>)
    ELSE LET s == a[i] * m + c
         IN  <<s % BASE>> \o MulLimb(a, m, i+1, s \div BASE)
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, j) ==
    IF j > Len(b) THEN << >>
    ELSE Add(IF b[j] = 0 THEN << >> ELSE MulLimb(a, b[j], 1, 0),
             LET r == MulFrom(a, b, j+1) IN IF r = << >> THEN r ELSE <<0>> \o r)
Mul(a, b) == IF a = << >> \/ b = << >> THEN << >> ELSE MulFrom(a, b, 1)

-----------------------------------------------------------------------------
(* Binary structure. *)
IntBits(n) == CHOOSE k \in 0..31 : /\ k = 0 => n = 0
                                   /\ k > 0 => n >= P2[k-1] /\ (k = 31 \/ n < P2[k])
\* Number of bits: 0 for zero, otherwise floor(log2 a) + 1.
BitLen(a) == IF Len(a) = 0 THEN 0 ELSE LB * (Len(a)-1) + IntBits(a[Len(a)])

Zeros(n) == [i \in 1..n |-> 0]
\* a * 2^k
Shl(a, k) ==
    IF a = << >> THEN << >>
    ELSE LET q == k \div LB  r == k % LB
         IN  Zeros(q) \o (IF r = 0 THEN a ELSE MulLimb(a, P2[r], 1, 0))

RECURSIVE ShrFrom(_, _, _)
ShrFrom(a, i, r) ==
    IF i > Len(a) THEN << >>
    ELSE <<(a[i] \div P2[r]) + (Limb(a, i+1) % P2[r]) * P2[LB-r]>> \o ShrFrom(a, i+1, r)
\* floor(a / 2^k)
Shr(a, k) == LET q == k \div LB  r == k % LB
             IN  IF q >= Len(a) THEN << >>
                 ELSE IF r = 0 THEN SubSeq(a, q+1, Len(a))
                 ELSE Strip(ShrFrom(a, q+1, r))

\* a mod 2^k
Low(a, k) == LET q == k \div LB  r == k % LB
             IN  IF q >= Len(a) THEN a
                 ELSE Strip(SubSeq(a, 1, q) \o <<a[q+1] % P2[r]>>)

\* Bit k (counting from 0) as 0 or 1.
Bit(a, k) == (Limb(a, (k \div LB) + 1) \div P2[k % LB]) % 2

IsOdd(a) == Len(a) > 0 /\ a[1] % 2 = 1

Pow2(k) == Zeros(k \div LB) \o <<P2[k % LB]>>
Ones(k) == Sub(Pow2(k), <<1>>)

-----------------------------------------------------------------------------
(* floor(a / b) for b > 0, by binary restoring division. *)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, k, q, r) ==
    IF k < 0 THEN q
    ELSE LET r2 == Add(Shl(r, 1), IF Bit(a, k) = 1 THEN <<1>> ELSE << >>)
             ge == Cmp(r2, b) >= 0
         IN  DivFrom(a, b, k-1, Add(Shl(q, 1), IF ge THEN <<1>> ELSE << >>),
                     IF ge THEN Sub(r2, b) ELSE r2)
Div(a, b) == DivFrom(a, b, BitLen(a) - 1, << >>, << >>)
Mod(a, b) == Sub(a, Mul(Div(a, b), b))

-----------------------------------------------------------------------------
(* Bitwise operators. *)
RECURSIVE IntAnd(_, _)
IntAnd(x, y) == IF x = 0 \/ y = 0 THEN 0
                ELSE (IF x % 2 = 1 /\ y % 2 = 1 THEN 1 ELSE 0) + 2 * IntAnd(x \div 2, y \div 2)
And(a, b) == Strip([i \in 1..MaxI(Len(a), Len(b)) |-> IntAnd(Limb(a, i), Limb(b, i))])
Or(a, b)  == Sub(Add(a, b), And(a, b))
Xor(a, b) == Sub(Or(a, b), And(a, b))
=============================================================================
