------------------------------- MODULE FPArith ------------------------------
(***************************************************************************)
(* The arithmetic the library promises: an exact mathematical result       *)
(* followed by one rounding to the result format.                          *)
(*                                                                         *)
(* An exact result is either a special value  <<0, v>>  or a non-zero      *)
(* dyadic rational  <<1, s, m, x>> = (-1)^s * m * 2^x  with m a BigNat.    *)
(* Quotients are represented to enough bits plus a sticky bit, which is    *)
(* exact for the purpose of rounding.                                      *)
(***************************************************************************)
EXTENDS FPFormat

XorS(s, t) == (s + t) % 2

Special(v)     == <<0, v>>
Dyadic(s, m, x) == <<1, s, m, x>>

FlipSign(v) == IF v[1] = NAN THEN VNaN ELSE <<v[1], 1 - v[2], v[3], v[4]>>

\* A value as an exact result.
Exact(fx, x) == IF x[1] = NORM THEN Dyadic(x[2], Sig(fx, x), Lsb(fx, x)) ELSE Special(Canon(x))

\* The one rounding.
Finish(fr, t) == IF t[1] = 0 THEN t[2] ELSE Round(fr, t[2], t[3], t[4])

-----------------------------------------------------------------------------
MulX(fx, x, fy, y) ==
    LET s == XorS(x[2], y[2])
    IN  CASE x[1] = NORM /\ y[1] = NORM ->
                 Dyadic(s, Mul(Sig(fx, x), Sig(fy, y)), Lsb(fx, x) + Lsb(fy, y))
          [] x[1] = NAN \/ y[1] = NAN -> Special(VNaN)
          [] x[1] = INF \/ y[1] = INF ->
                 Special(IF x[1] = ZERO \/ y[1] = ZERO THEN VNaN ELSE VInf(s))
          [] OTHER -> Special(VZero(s))

-----------------------------------------------------------------------------
(* Exact sum of two exact results. *)
SumX(a, b) ==
    IF a[1] = 1 /\ b[1] = 1 THEN
        LET x  == IF a[4] < b[4] THEN a[4] ELSE b[4]
            ma == Shl(a[3], a[4] - x)
            mb == Shl(b[3], b[4] - x)
            c  == Cmp(ma, mb)
        IN  IF a[2] = b[2] THEN Dyadic(a[2], Add(ma, mb), x)
            ELSE IF c = 0 THEN Special(VZero(0))
            ELSE IF c > 0 THEN Dyadic(a[2], Sub(ma, mb), x)
            ELSE Dyadic(b[2], Sub(mb, ma), x)
    ELSE IF a[1] = 1 THEN (IF b[2][1] = ZERO THEN a ELSE b)
    ELSE IF b[1] = 1 THEN (IF a[2][1] = ZERO THEN b ELSE a)
    ELSE LET u == a[2]  v == b[2]
         IN  CASE u[1] = NAN \/ v[1] = NAN -> Special(VNaN)
               [] u[1] = INF /\ v[1] = INF -> Special(IF u[2] = v[2] THEN u ELSE VNaN)
               [] u[1] = INF -> a
               [] v[1] = INF -> b
               [] OTHER -> Special(VZero(IF u[2] = 1 /\ v[2] = 1 THEN 1 ELSE 0))

AddX(fx, x, fy, y) == SumX(Exact(fx, x), Exact(fy, y))

-----------------------------------------------------------------------------
DivX(fx, x, fy, y, fr) ==
    LET s == XorS(x[2], y[2])
    IN  CASE x[1] = NORM /\ y[1] = NORM ->
                 LET a == Sig(fx, x)
                     b == Sig(fy, y)
                     k == BitLen(b) + fr[2] + 3     \* enough quotient bits
                     n == Shl(a, k)
                     q == Div(n, b)
                     t == IF Mul(q, b) = n THEN << >> ELSE <<1>>   \* sticky
                 IN  Dyadic(s, Add(Shl(q, 1), t), Lsb(fx, x) - Lsb(fy, y) - k - 1)
          [] x[1] = NAN \/ y[1] = NAN -> Special(VNaN)
          [] x[1] = INF  -> Special(IF y[1] = INF THEN VNaN ELSE VInf(s))
          [] y[1] = INF  -> Special(VZero(s))
          [] y[1] = ZERO -> Special(IF x[1] = ZERO THEN VNaN ELSE VInf(s))
          [] OTHER       -> Special(VZero(s))

\* One, in any format.
VOne(fmt) == <<NORM, 0, Bias(fmt), << >> >>

FpMul(fx, x, fy, y, fr) == Finish(fr, MulX(fx, x, fy, y))
FpAdd(fx, x, fy, y, fr) == Finish(fr, AddX(fx, x, fy, y))
FpDiv(fx, x, fy, y, fr) == Finish(fr, DivX(fx, x, fy, y, fr))
FpInv(fx, x, fr)        == FpDiv(fx, VOne(fx), fx, x, fr)
FpConv(fx, x, fr)       == Finish(fr, Exact(fx, x))
FpNeg(fx, x, fr)        == FlipSign(FpConv(fx, x, fr))
FmaX(fx, x, fy, y, fz, z) == SumX(MulX(fx, x, fy, y), Exact(fz, z))

-----------------------------------------------------------------------------
(* How a rounding went, for measuring what a run covered. *)
RoundKind(fr, t) ==
    IF t[1] = 0 THEN <<"special", t[2][1]>>
    ELSE LET m == t[3]
             k == BitLen(m) - (fr[2] + 1)
             v == Finish(fr, t)
             q == IF k <= 0 THEN << >> ELSE Shr(m, k)
             c == IF k <= 0 THEN -2
                  ELSE IF Low(m, k) = << >> THEN -2 ELSE Cmp(Low(m, k), Pow2(k-1))
         IN  CASE v[1] # NORM -> <<IF v[1] = INF THEN "overflow" ELSE "underflow", v[2]>>
               [] c = -2 -> <<"exact", 0>>
               [] c = -1 -> <<"down", 0>>
               [] OTHER  -> <<IF c = 0 THEN (IF IsOdd(q) THEN "tie-up" ELSE "tie-down") ELSE "up",
                              IF (c > 0 \/ IsOdd(q)) /\ q = Ones(fr[2]+1) THEN 1 ELSE 0>>  \* 1: carry out
=============================================================================
