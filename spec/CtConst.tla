------------------------------ MODULE CtConst -------------------------------
(***************************************************************************)
(* Compile-time constants: signed 64-bit numbers, written <<s, n>> with    *)
(* sign s (1 for negative) and magnitude n, and fixed-point constants,     *)
(* written <<e, x>> for x times 2^e.                                       *)
(***************************************************************************)
EXTENDS BigNat

IsSigned(x) == x[1] \in {0, 1} /\ IsBigNat(x[2]) /\ (x[2] = << >> => x[1] = 0)
Signed(i) == IF i < 0 THEN <<1, FromInt(0 - i)>> ELSE <<0, FromInt(i)>>
SCmp(x, y) == IF x[1] = 1 THEN IF y[1] = 1 THEN Cmp(y[2], x[2]) ELSE -1
              ELSE IF y[1] = 1 THEN 1 ELSE Cmp(x[2], y[2])
SMax(x, y) == IF SCmp(x, y) >= 0 THEN x ELSE y
SMin(x, y) == IF SCmp(x, y) <= 0 THEN x ELSE y
SShl(x, k) == <<x[1], Shl(x[2], k)>>
\* Towards minus infinity.
SShr(x, k) == IF x[1] = 0 THEN <<0, Shr(x[2], k)>>
              ELSE <<1, Add(Shr(Sub(x[2], <<1>>), k), <<1>>)>>

\* The order of fixed-point constants: that of the values over the smaller exponent.
Low2(a, b) == IF a < b THEN a ELSE b
FixCmp(a, b) == LET lo == Low2(a[1], b[1])
                IN  SCmp(SShl(a[2], a[1] - lo), SShl(b[2], b[1] - lo))
\* -1, 0, 1 and the five relations.
FixRelations(a, b) == LET c == FixCmp(a, b)  B(p) == IF p THEN 1 ELSE 0
                      IN  <<c, B(c < 0), B(c <= 0), B(c = 0), B(c >= 0), B(c > 0)>>
=============================================================================
