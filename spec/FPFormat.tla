------------------------------ MODULE FPFormat ------------------------------
(***************************************************************************)
(* The floating-point formats of the library and their values.             *)
(*                                                                         *)
(* A flopoco format <<E, F>> has E exponent bits and F fraction bits.  A   *)
(* value is held as  <<class, sign, exponent field, fraction>>, where the  *)
(* fraction is a BigNat.  Only the class and the sign of a zero or an      *)
(* infinity, and only the class of a NaN, mean anything: the exponent and  *)
(* fraction of those are don't-care bits.  All 2^E exponents are normal:   *)
(* there are no subnormals.                                                *)
(***************************************************************************)
EXTENDS BigNat

ZERO == 0  NORM == 1  INF == 2  NAN == 3

FE(fmt) == fmt[1]
FF(fmt) == fmt[2]
Bias(fmt)   == P2[fmt[1]-1] - 1
MaxExpF(fmt) == P2[fmt[1]] - 1          \* largest exponent field

CL(v) == v[1]
SG(v) == v[2]
EX(v) == v[3]
FR(v) == v[4]

Bool(b) == IF b THEN 1 ELSE 0

\* Abstract values: the canonical representative of each meaning.
VZero(s) == <<ZERO, s, 0, << >> >>
VInf(s)  == <<INF,  s, 0, << >> >>
VNaN     == <<NAN,  0, 0, << >> >>
VNorm(s, e, f) == <<NORM, s, e, f>>

\* What a stored value means, with the don't-care bits erased.
Canon(v) == CASE v[1] = NORM -> v
              [] v[1] = ZERO -> VZero(v[2])
              [] v[1] = INF  -> VInf(v[2])
              [] OTHER       -> VNaN

\* A bit pattern a format can hold (the don't-care bits are arbitrary).
WellFormed(fmt, v) ==
    /\ v[1] \in 0..3 /\ v[2] \in 0..1
    /\ v[3] \in 0..MaxExpF(fmt)
    /\ BitLen(v[4]) <= fmt[2]

\* The significand of a normal, as an integer of F+1 bits, and the exponent
\* of its least significant bit: value = (-1)^s * Sig * 2^Lsb.
Sig(fmt, v) == Add(Pow2(fmt[2]), v[4])
Lsb(fmt, v) == v[3] - Bias(fmt) - fmt[2]

-----------------------------------------------------------------------------
(* Rounding.  Round(fmt, s, m, x) is the value of fmt nearest to           *)
(* (-1)^s * m * 2^x, ties to even; too large becomes infinity and too      *)
(* small zero.  The result is at most as large as the largest normal when  *)
(* the rounded significand still fits, as for an unbounded exponent.       *)
RoundSig(F, m, k) ==      \* m / 2^k rounded to the nearest integer, ties to even
    LET q == Shr(m, k)
        c == IF k = 0 THEN -1 ELSE Cmp(Low(m, k), Pow2(k-1))
    IN  IF c > 0 \/ (c = 0 /\ IsOdd(q)) THEN Add(q, <<1>>) ELSE q

Pack(fmt, s, q, lsb) ==   \* q has F+1 or (just) F+2 bits
    LET F  == fmt[2]
        ov == BitLen(q) > F + 1
        e  == lsb + F + Bool(ov) + Bias(fmt)
    IN  IF e > MaxExpF(fmt) THEN VInf(s)
        ELSE IF e < 0 THEN VZero(s)
        ELSE <<NORM, s, e, IF ov THEN << >> ELSE Low(q, F)>>

Round(fmt, s, m, x) ==
    IF m = << >> THEN VZero(s)
    ELSE LET k == BitLen(m) - (fmt[2] + 1)
         IN  IF k <= 0 THEN Pack(fmt, s, Shl(m, -k), x + k)
             ELSE Pack(fmt, s, RoundSig(fmt[2], m, k), x + k)

\* The same, truncating towards zero.
Trunc(fmt, s, m, x) ==
    IF m = << >> THEN VZero(s)
    ELSE LET k == BitLen(m) - (fmt[2] + 1)
         IN  Pack(fmt, s, IF k <= 0 THEN Shl(m, -k) ELSE Shr(m, k), x + k)
=============================================================================
