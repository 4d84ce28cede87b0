------------------------------- MODULE FPLaws -------------------------------
(***************************************************************************)
(* The specification held against definitions that do not share its        *)
(* arithmetic: on small formats, completely.  Each state is a choice of    *)
(* formats and operands; the invariants say                                *)
(*   - that the one rounding picks the nearest of all values (by comparing *)
(*     with every one of them), ties to even, before the range is imposed; *)
(*   - that order, neighbours and closeness are those of the values;       *)
(*   - the algebra the operations are bound to;                            *)
(*   - that a root, power, exponential, logarithm has exactly one right    *)
(*     result, the one nearest.                                            *)
(* They are what a user reasons with, so they also say what it means for   *)
(* the checked implementation to agree with this specification.            *)
(***************************************************************************)
EXTENDS FPOps, Reference, IOUtils, TLC

Small == IF "BIG" \in DOMAIN IOEnv THEN {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>}
         ELSE {<<1, 1>>, <<2, 1>>, <<2, 2>>}

Fractions(F) == {FromInt(k) : k \in 0..(P2[F] - 1)}
Normals(fmt) == {<<NORM, s, e, f>> : s \in 0..1, e \in 0..MaxExpF(fmt), f \in Fractions(fmt[2])}
Values(fmt)  == Normals(fmt) \cup {VZero(0), VZero(1), VInf(0), VInf(1), VNaN}

VARIABLES fx, x, fy, y, fr
vars == <<fx, x, fy, y, fr>>
Init == /\ fx \in Small /\ fy \in Small /\ fr \in Small
        /\ x \in Values(fx) /\ y \in Values(fy)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Rounding. *)
\* Magnitude of a difference of dyadics, as <<m, x>>.
Dist(a, b) == LET d == SumX(a, <<b[1], 1 - b[2], b[3], b[4]>>) IN IF d[1] = 0 THEN << << >>, 0>> ELSE <<d[3], d[4]>>
Closer(p, q) == CmpDy(p[1], p[2], q[1], q[2]) < 0
Same(p, q) == CmpDy(p[1], p[2], q[1], q[2]) = 0
\* A format of the same precision and ample range; only the exponents near t matter.
Wide(fmt) == <<6, fmt[2]>>
Around(fmt, t) ==
    LET c == t[4] + BitLen(t[3]) - 1 + Bias(Wide(fmt))
    IN  {<<NORM, t[2], e, f>> : e \in (c - 1)..(c + 1), f \in Fractions(fmt[2])}
NearestAmong(fmt, t) ==      \* by comparison with every candidate
    LET w == Wide(fmt)
        best == {v \in Around(fmt, t) : \A u \in Around(fmt, t) : ~Closer(Dist(Exact(w, u), t), Dist(Exact(w, v), t))}
    IN  CHOOSE v \in best : \A u \in best : u = v \/ ~IsOdd(v[4])
InFormat(fmt, v) ==          \* v of the wide format, taken into fmt
    LET e == v[3] - Bias(Wide(fmt)) + Bias(fmt)
    IN  IF e < 0 THEN VZero(v[2]) ELSE IF e > MaxExpF(fmt) THEN VInf(v[2]) ELSE <<NORM, v[2], e, v[4]>>
RoundsNearest(t) == t[1] = 1 => Finish(fr, t) = InFormat(fr, NearestAmong(fr, t))
RoundingInv ==
    /\ RoundsNearest(Exact(fx, x))
    /\ RoundsNearest(AddX(fx, x, fy, y))
    /\ RoundsNearest(MulX(fx, x, fy, y))
    /\ x[1] = NORM /\ y[1] = NORM =>
         LET q == DivX(fx, x, fy, y, fr)         \* the truncated quotient against the exact one
             r == NearestAmong(fr, q)
             twice(v) == <<v[1], v[2], Shl(v[3], 1), v[4]>>
         IN  /\ Finish(fr, q) = InFormat(fr, r)
             \* q and x/y lie on the same side of everything the rounding looks at
             /\ \A v \in Around(fr, q) : \A half \in 0..1 :
                  LET b == Exact(Wide(fr), v)
                      n == Add(Shl(b[3], 1), FromInt(half))
                      e == b[4] - 1
                  IN  CmpDy(q[3], q[4], n, e) = CmpDy(Sig(fx, x), Lsb(fx, x), Mul(n, Sig(fy, y)), e + Lsb(fy, y))

-----------------------------------------------------------------------------
(* Order and neighbours. *)
Leq(a, b) == FpCmp(fx, a, fx, b) \in {-1, 0}
Less(a, b) == FpCmp(fx, a, fx, b) = -1
OrderInv ==
    /\ FpCmp(fx, x, fy, y) = (LET c == FpCmp(fy, y, fx, x) IN IF c = 2 THEN 2 ELSE -c)
    /\ (FpCmp(fx, x, fy, y) = 2) = (x[1] = NAN \/ y[1] = NAN)
    /\ fx = fy /\ x[1] # NAN /\ y[1] # NAN =>
         \* a difference has the sign of the comparison, when there is one to see
         LET d == AddX(fx, x, fx, FlipSign(y))
         IN  (x[1] # INF \/ y[1] # INF) =>
             FpCmp(fx, x, fx, y) = (IF d[1] = 1 \/ d[2][1] = INF
                                    THEN (IF (IF d[1] = 1 THEN d[2] ELSE d[2][2]) = 1 THEN -1 ELSE 1) ELSE 0)
    \* nothing lies strictly between a value and the next
    /\ fx = fy /\ x[1] # NAN /\ y[1] # NAN => ~(Less(x, y) /\ Less(y, NextUp(fx, x)))
    /\ x[1] # NAN => Leq(x, NextUp(fx, x)) /\ Leq(NextDown(fx, x), x)
    /\ x[1] # NAN /\ x # VInf(0) => NextUp(fx, x) # x /\ NextDown(fx, NextUp(fx, x)) = x
    /\ fx = fy => Within1Ulp(fx, x, y) = Within1Ulp(fx, y, x)
    /\ Within1Ulp(fx, x, x)
    /\ x[1] = NORM => Within1Ulp(fx, x, NextUp(fx, x)) /\ Within1Ulp(fx, NextDown(fx, x), x)
    /\ fx = fy /\ x[1] = NORM /\ y[1] = NORM =>
         (Within1Ulp(fx, x, y) = (y \in {x, NextUp(fx, x), NextDown(fx, x)}))
    \* conversion preserves order
    /\ fx = fy /\ x[1] # NAN /\ y[1] # NAN /\ Leq(x, y) =>
         FpCmp(fr, FpConv(fx, x, fr), fr, FpConv(fx, y, fr)) \in {-1, 0}

-----------------------------------------------------------------------------
(* Algebra. *)
MinusZero == VZero(1)
AlgebraInv ==
    /\ FpAdd(fx, x, fy, y, fr) = FpAdd(fy, y, fx, x, fr)
    /\ FpMul(fx, x, fy, y, fr) = FpMul(fy, y, fx, x, fr)
    /\ FpMul(fx, FlipSign(x), fy, y, fr) = FlipSign(FpMul(fx, x, fy, y, fr))
    /\ FpDiv(fx, FlipSign(x), fy, y, fr) = FlipSign(FpDiv(fx, x, fy, y, fr))
    /\ FpAdd(fx, FlipSign(x), fy, FlipSign(y), fr) =
         (LET s == FpAdd(fx, x, fy, y, fr)  t == AddX(fx, x, fy, y)
          IN  IF t[1] = 0 /\ t[2][1] = ZERO /\ x[2] # y[2] THEN VZero(0) ELSE FlipSign(s))
    /\ x[1] \in {ZERO, NORM} => FpAdd(fx, x, fx, FlipSign(x), fr) = VZero(0)
    /\ FpMul(fx, x, fx, VOne(fx), fx) = x
    /\ FpDiv(fx, x, fx, VOne(fx), fx) = x
    /\ x[1] = NORM => FpDiv(fx, x, fx, x, fr) = VOne(fr)
    /\ FpAdd(fx, x, fy, MinusZero, fr) = FpConv(fx, x, fr)
    /\ FpInv(fx, x, fr) = FpDiv(fx, VOne(fx), fx, x, fr)
    /\ FlipSign(FlipSign(x)) = x
    /\ FpConv(fx, x, fx) = x
    \* a format at least as wide in both holds every value
    /\ fr[1] >= fx[1] /\ fr[2] >= fx[2] => FpConv(fr, FpConv(fx, x, fr), fx) = x
    \* fused: one factor of one, or an addend of zero of the product's sign
    /\ FmaOnce(fx, x, fx, VOne(fx), fy, y, fr) = FpAdd(fx, x, fy, y, fr)
    /\ FmaOnce(fx, x, fy, y, fr, VZero(XorS(x[2], y[2])), fr) = FpMul(fx, x, fy, y, fr)
    \* a reciprocal is one of the faithful ones, and lies in the enclosing pair
    /\ FpInv(fx, x, fr) \in FaithfulInv(fx, x, fr)
    /\ x[1] = NORM => LET p == InvPair(fx, x, fr)
                      IN  /\ FpCmp(fr, p[1], fr, FpInv(fx, x, fr)) \in {-1, 0}
                          /\ FpCmp(fr, FpInv(fx, x, fr), fr, p[2]) \in {-1, 0}
                          /\ {p[1], p[2]} = FaithfulInv(fx, x, fr)
    \* a single product's truncation never exceeds it
    /\ x[1] = NORM /\ y[1] = NORM =>
         LET t == MulX(fx, x, fy, y)  d == FinishTrunc(fr, t)
         IN  d[1] = NORM => CmpDy(Sig(fr, d), Lsb(fr, d), t[3], t[4]) \in {-1, 0}
    \* an operation is repeatable and closed: its result is well formed
    /\ \A r \in {FpAdd(fx, x, fy, y, fr), FpMul(fx, x, fy, y, fr), FpDiv(fx, x, fy, y, fr), FpConv(fx, x, fr)} :
         WellFormed(fr, r) /\ Canon(r) = r

-----------------------------------------------------------------------------
(* Interchange with IEEE encodings. *)
Enc(fmt) == {<<s, e, f>> : s \in 0..1, e \in 0..MaxExpF(fmt), f \in Fractions(fmt[2])}
IEEEInv ==
    /\ WellFormed(fx, FromIEEE(fx, x))
    \* going out and coming back changes only what the encoding cannot hold
    /\ FromIEEE(fx, x)[1] # NAN => \A b \in Enc(fx) : IsToIEEE(fx, FromIEEE(fx, x), b) => FromIEEE(fx, b) = FromIEEE(fx, x)
    /\ \E b \in Enc(fx) : IsToIEEE(fx, FromIEEE(fx, x), b)
    \* an export has one encoding, except of a NaN
    /\ FromIEEE(fx, x)[1] # NAN => \A a, b \in Enc(fx) : IsToIEEE(fx, FromIEEE(fx, x), a) /\ IsToIEEE(fx, FromIEEE(fx, x), b) => a = b
    /\ IEEEEquals(fx, x, x)
InitIEEE == fx \in {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 2>>} /\ x \in Enc(fx) /\ y = << >> /\ fy = fx /\ fr = fx
SpecIEEE == InitIEEE /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Roots, powers, exponentials, logarithms: one right result. *)
Right(P(_)) == {v \in Values(fr) : P(v)}
One(S) == \E v \in S : S = {v}
InitReal == /\ fx \in Small /\ fr \in Small /\ fy \in {<<2, 1>>}
            /\ x \in Values(fx) /\ y \in Values(fy)
SpecReal == InitReal /\ [][Next]_vars
RealInv ==
    LET S(v) == SqrtOk(fx, x, fr, v)
        E(v) == ExpOk(fx, x, fr, v)
        L(v) == LogOk(fx, x, fr, v)
        P(v) == PowOk(fx, x, fy, y, fr, v)
    IN  /\ One(Right(S)) /\ One(Right(E)) /\ One(Right(L)) /\ One(Right(P))
        \* the root of an exact square is the value
        /\ x[1] = NORM /\ x[2] = 0 =>
             LET sq == MulX(fx, x, fx, x)
                 w == <<7, 2 * fx[2] + 1>>
             IN  SqrtOk(w, Finish(w, sq), fr, FpConv(fx, x, fr))
        \* small powers are products
        /\ y = VOne(fy) => Right(P) = {FpConv(fx, x, fr)}
        /\ y = FlipSign(VOne(fy)) => Right(P) = {FpInv(fx, x, fr)}
        /\ y = <<NORM, 0, 2, << >> >> => Right(P) = {FpMul(fx, x, fx, x, fr)}
        /\ y = <<NORM, 0, 0, << >> >> /\ ~(x[2] = 1 \/ x[1] = ZERO) => Right(P) = Right(S)
=============================================================================
