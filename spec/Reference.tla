------------------------------ MODULE Reference -----------------------------
(***************************************************************************)
(* Results that are not finite sums, products or quotients: roots, powers, *)
(* exponentials and logarithms, correctly rounded.                         *)
(*                                                                         *)
(* A result is not computed but judged: it is right iff the real value     *)
(* lies in the interval that rounds to it.  The interval's ends are        *)
(* dyadic, so all that is needed is to compare the real value with a       *)
(* dyadic: algebraically where the value is algebraic, and otherwise by    *)
(* an enclosure of the logarithm.  Where the enclosure cannot tell, either *)
(* neighbour is accepted.                                                  *)
(***************************************************************************)
EXTENDS FPArith

\* Comparison of positive dyadics m * 2^x.
CmpDy(m, x, n, y) == LET z == IF x < y THEN x ELSE y
                     IN  IF m = << >> \/ n = << >> THEN Cmp(m, n)
                         ELSE IF x + BitLen(m) # y + BitLen(n)
                         THEN (IF x + BitLen(m) < y + BitLen(n) THEN -1 ELSE 1)
                         ELSE Cmp(Shl(m, x - z), Shl(n, y - z))

(* v is the value of fmt nearest to a positive real R, where C(n, y)       *)
(* compares R with n * 2^y: -1, 0, 1, or 2 if unknown.  F >= 1.            *)
NearestPos(fmt, v, C(_, _)) ==
    LET F == fmt[2]
        smallest == <<NORM, 0, 0, << >> >>
        largest  == <<NORM, 0, MaxExpF(fmt), Ones(F)>>
        BelowN(w) == IF w[4] = << >> THEN Sub(Shl(Sig(fmt, w), 2), <<1>>) ELSE Sub(Shl(Sig(fmt, w), 1), <<1>>)
        BelowX(w) == Lsb(fmt, w) - (IF w[4] = << >> THEN 2 ELSE 1)
        AboveN(w) == Add(Shl(Sig(fmt, w), 1), <<1>>)
        AboveX(w) == Lsb(fmt, w) - 1
    IN  /\ v[1] \in {ZERO, NORM, INF}
        /\ CASE v[1] = ZERO -> C(BelowN(smallest), BelowX(smallest)) \in {-1, 2}
             [] v[1] = INF  -> C(AboveN(largest), AboveX(largest)) \in {0, 1, 2}
             [] OTHER -> /\ C(BelowN(v), BelowX(v)) \in (IF IsOdd(Sig(fmt, v)) THEN {1, 2} ELSE {0, 1, 2})
                         /\ C(AboveN(v), AboveX(v)) \in (IF IsOdd(Sig(fmt, v)) THEN {-1, 2} ELSE {-1, 0, 2})

\* The same for (-1)^s * R.
NearestSigned(fmt, v, s, C(_, _)) == v[2] = s /\ NearestPos(fmt, [v EXCEPT ![2] = 0], C)

-----------------------------------------------------------------------------
(* Signed integers <<s, m>>. *)
ZAdd(a, b) == IF a[1] = b[1] THEN <<a[1], Add(a[2], b[2])>>
              ELSE IF Cmp(a[2], b[2]) >= 0 THEN <<a[1], Sub(a[2], b[2])>>
              ELSE <<b[1], Sub(b[2], a[2])>>
ZMul(a, b) == <<XorS(a[1], b[1]), Mul(a[2], b[2])>>
ZInt(n) == IF n < 0 THEN <<1, FromInt(-n)>> ELSE <<0, FromInt(n)>>
ZNeg(a) == <<1 - a[1], a[2]>>
ZSign(a) == IF a[2] = << >> THEN 0 ELSE IF a[1] = 1 THEN -1 ELSE 1
ZCmp(a, b) == ZSign(ZAdd(a, ZNeg(b)))
ZShl(a, k) == <<a[1], Shl(a[2], k)>>

-----------------------------------------------------------------------------
(* Natural logarithms, enclosed between integers over 2^LW.                *)
LW == 224

\* atanh(p/q) * 2^LW for 0 <= p/q <= 1/3, from below, and the number of terms summed.
Atanh(p, q) ==
    LET z  == Div(Shl(p, LW), q)
        z2 == Shr(Mul(z, z), LW)
        RECURSIVE Go(_, _, _)
        Go(t, k, sum) == IF t = << >> THEN <<sum, k>>
                         ELSE Go(Shr(Mul(t, z2), LW), k + 1, Add(sum, Div(t, FromInt(2*k + 1))))
    IN  Go(z, 0, << >>)
\* 2 * atanh from below and above: each term is short by less than four units.
TwoAtanh(p, q) == LET a == Atanh(p, q)
                  IN  <<Shl(a[1], 1), Shl(Add(a[1], FromInt(4 * a[2] + 8)), 1)>>
Ln2 == TwoAtanh(<<1>>, <<3>>)

\* <<below, above>> ln(m * 2^x), signed.
LnBounds(m, x) ==
    LET n  == BitLen(m)
        hi == Cmp(Shl(m, 1), Mul(<<3>>, Pow2(n - 1))) >= 0     \* at least 1.5: work below one
        k  == IF hi THEN n ELSE n - 1
        e  == x + k
        o  == Pow2(k)
        a  == IF hi THEN TwoAtanh(Sub(o, m), Add(o, m)) ELSE TwoAtanh(Sub(m, o), Add(m, o))
        l  == IF hi THEN <<1, a[2]>> ELSE <<0, a[1]>>
        h  == IF hi THEN <<1, a[1]>> ELSE <<0, a[2]>>
        e1 == ZMul(ZInt(e), <<0, IF e < 0 THEN Ln2[2] ELSE Ln2[1]>>)
        e2 == ZMul(ZInt(e), <<0, IF e < 0 THEN Ln2[1] ELSE Ln2[2]>>)
    IN  IF m = o THEN <<e1, e2>> ELSE <<ZAdd(l, e1), ZAdd(h, e2)>>

\* Comparison of a signed dyadic (-1)^s m 2^x with an enclosure over 2^LW.
CmpBounds(s, m, x, b) ==
    LET z == x + LW
        d == IF z >= 0 THEN <<s, Shl(m, z)>> ELSE <<s, m>>
        lo == IF z >= 0 THEN b[1] ELSE ZShl(b[1], -z)
        hi == IF z >= 0 THEN b[2] ELSE ZShl(b[2], -z)
    IN  IF ZCmp(d, lo) < 0 THEN -1 ELSE IF ZCmp(d, hi) > 0 THEN 1 ELSE 2

-----------------------------------------------------------------------------
RECURSIVE PowBig(_, _)
PowBig(m, n) == IF n = 0 THEN <<1>> ELSE IF n % 2 = 1 THEN Mul(m, PowBig(m, n - 1))
                ELSE LET h == PowBig(m, n \div 2) IN Mul(h, h)

\* (m 2^x)^(p / 2^q) against n 2^y: raise both to the power 2^q.
CmpPow(m, x, p, q, n, y) ==
    LET k == P2[q]
    IN  IF p >= 0 THEN CmpDy(PowBig(m, p), x * p, PowBig(n, k), y * k)
        ELSE CmpDy(<<1>>, 0, Mul(PowBig(n, k), PowBig(m, -p)), y * k - x * p)

SqrtOk(fx, x, fr, r) ==
    LET v == Canon(r)
        C(n, y) == CmpPow(Sig(fx, x), Lsb(fx, x), 1, 1, n, y)
    IN  CASE x[1] = NAN -> v = VNaN
          [] x[1] = ZERO -> v = VZero(x[2])
          [] x[2] = 1 -> v = VNaN
          [] x[1] = INF -> v = VInf(0)
          [] OTHER -> NearestSigned(fr, v, 0, C)

\* Beyond these the exponential is far outside, or is one to, every format.
ExpOk(fx, x, fr, r) ==
    LET v == Canon(r)
        one == VOne(fr)
        top(w) == Lsb(fx, w) + fx[2]
        C(n, y) == IF top(x) > 40 THEN (IF x[2] = 1 THEN -1 ELSE 1)
                   ELSE CmpBounds(x[2], Sig(fx, x), Lsb(fx, x), LnBounds(n, y))
    IN  CASE x[1] = NAN -> v = VNaN
          [] x[1] = INF -> v = (IF x[2] = 1 THEN VZero(0) ELSE VInf(0))
          [] x[1] = ZERO -> v = one
          [] OTHER -> IF top(x) < -100 THEN v = one
                      ELSE NearestSigned(fr, v, 0, C)

LogOk(fx, x, fr, r) ==
    LET v == Canon(r)
        b == LnBounds(Sig(fx, x), Lsb(fx, x))
        s == Bool(ZSign(b[2]) < 0)
        C(n, y) == LET c == CmpBounds(s, n, y, b) IN IF c = 2 THEN 2 ELSE IF s = 0 THEN -c ELSE c
    IN  CASE x[1] = NAN -> v = VNaN
          [] x[1] = ZERO -> v = VInf(1)
          [] x[2] = 1 -> v = VNaN
          [] x[1] = INF -> v = VInf(0)
          [] x[3] = Bias(fx) /\ x[4] = << >> -> v = VZero(0)
          [] OTHER -> NearestSigned(fr, v, s, C)

-----------------------------------------------------------------------------
(* Powers, by the rules of C's pow. *)
TrailingZeros(m) == CHOOSE k \in 0..(BitLen(m)-1) : Low(m, k) = << >> /\ Bit(m, k) = 1
LowBit(fy, y) == Lsb(fy, y) + TrailingZeros(Sig(fy, y))       \* weight of the last one
IsInteger(fy, y) == y[1] = NORM /\ LowBit(fy, y) >= 0
IsOddInteger(fy, y) == y[1] = NORM /\ LowBit(fy, y) = 0
CmpOne(fx, x) == CmpDy(Sig(fx, x), Lsb(fx, x), <<1>>, 0)      \* the magnitude

PowOk(fx, x, fy, y, fr, r) ==
    LET v == Canon(r)
        one == VOne(fr)
        odd == IsOddInteger(fy, y)
        s == IF x[2] = 1 /\ odd THEN 1 ELSE 0
        isone(w) == w[1] = NORM /\ CmpOne(fx, w) = 0
        tz == TrailingZeros(Sig(fy, y))
        p0 == Shr(Sig(fy, y), tz)
        q0 == -LowBit(fy, y)
        small == BitLen(p0) <= 6 /\ q0 \in -3..3               \* decided algebraically
        p == LET a == ToInt(p0) * (IF q0 < 0 THEN P2[-q0] ELSE 1) IN IF y[2] = 1 THEN -a ELSE a
        q == IF q0 > 0 THEN q0 ELSE 0
        lnx == LnBounds(Sig(fx, x), Lsb(fx, x))
        ylo == ZMul(<<y[2], Sig(fy, y)>>, lnx[IF y[2] = 1 THEN 2 ELSE 1])
        yhi == ZMul(<<y[2], Sig(fy, y)>>, lnx[IF y[2] = 1 THEN 1 ELSE 2])
        ye == Lsb(fy, y)
        \* y * ln x against ln (n 2^k), on a common scale
        CT(n, k) == LET b == LnBounds(n, k)
                        lo == IF ye >= 0 THEN ZShl(ylo, ye) ELSE ylo
                        hi == IF ye >= 0 THEN ZShl(yhi, ye) ELSE yhi
                        b1 == IF ye >= 0 THEN b[1] ELSE ZShl(b[1], -ye)
                        b2 == IF ye >= 0 THEN b[2] ELSE ZShl(b[2], -ye)
                    IN  IF ZCmp(hi, b1) < 0 THEN -1 ELSE IF ZCmp(lo, b2) > 0 THEN 1 ELSE 2
        CA(n, k) == CmpPow(Sig(fx, x), Lsb(fx, x), p, q, n, k)
        far == Lsb(fy, y) + fy[2] > 40                         \* |y| beyond 2^40
        near == Lsb(fy, y) + fy[2] < -100
        up == IF CmpOne(fx, x) > 0 THEN y[2] = 0 ELSE y[2] = 1
    IN  CASE y[1] = ZERO -> v = one
          [] isone(x) /\ x[2] = 0 -> v = one
          [] x[1] = NAN \/ y[1] = NAN -> v = VNaN
          [] x[1] = ZERO -> v = (IF y[2] = 1 THEN VInf(s) ELSE VZero(s))
          [] x[1] = INF -> v = (IF y[2] = 1 THEN VZero(s) ELSE VInf(s))
          [] y[1] = INF -> v = (IF isone(x) THEN one ELSE IF up THEN VInf(0) ELSE VZero(0))
          [] x[2] = 1 /\ ~IsInteger(fy, y) -> v = VNaN
          [] isone(x) -> v = (IF s = 1 THEN FlipSign(one) ELSE one)
          [] OTHER -> IF far THEN TRUE
                      ELSE IF near THEN v = one
                      ELSE IF small THEN NearestSigned(fr, v, s, CA)
                      ELSE NearestSigned(fr, v, s, CT)

-----------------------------------------------------------------------------
(* A value times a power of two. *)
ScaleX(fx, x, k) == LET t == Exact(fx, x) IN IF t[1] = 1 THEN Dyadic(t[2], t[3], t[4] + k) ELSE t

(* The reciprocal rounded down and up: a pair that encloses it. *)
DirectedTo(fr, up, t) ==      \* up: towards plus infinity
    IF t[1] = 0 THEN t[2]
    ELSE LET k == BitLen(t[3]) - (fr[2] + 1)
             q == Shr(t[3], k)
             away == up = (t[2] = 0)
         IN  IF k <= 0 THEN Pack(fr, t[2], Shl(t[3], -k), t[4] + k)
             ELSE Pack(fr, t[2], IF away /\ Low(t[3], k) # << >> THEN Add(q, <<1>>) ELSE q, t[4] + k)
InvPair(fx, x, fr) == LET t == DivX(fx, VOne(fx), fx, x, fr)
                      IN  <<DirectedTo(fr, FALSE, t), DirectedTo(fr, TRUE, t)>>
=============================================================================
