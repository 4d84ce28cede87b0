-------------------------------- MODULE FPOps -------------------------------
(***************************************************************************)
(* The public operations of the library as a table: which results the      *)
(* specification accepts for an operation applied to given operands.       *)
(* An event ev names the operation and the formats; a case c holds the     *)
(* operand values and, last, the observed result.                          *)
(***************************************************************************)
EXTENDS FPArith

\* An observed result r of format fr means the value v.
Is(fr, r, v) == r[1] \in 0..3 /\ WellFormed(fr, r) /\ Canon(r) = v

-----------------------------------------------------------------------------
(* The exact, still unrounded results of the arithmetic operations. *)
ExactOf(ev, c) ==
    CASE ev.op = "add"  -> AddX(ev.fx, c[1], ev.fy, c[2])
      [] ev.op = "mul"  -> MulX(ev.fx, c[1], ev.fy, c[2])
      [] ev.op = "div"  -> DivX(ev.fx, c[1], ev.fy, c[2], ev.fr)
      [] ev.op = "sqr"  -> MulX(ev.fx, c[1], ev.fx, c[1])
      [] ev.op = "conv" -> Exact(ev.fx, c[1])
      [] ev.op = "inv"  -> DivX(ev.fx, VOne(ev.fx), ev.fx, c[1], ev.fr)

Rounded == {"add", "mul", "div", "sqr", "conv", "inv"}

-----------------------------------------------------------------------------
(* Fused multiply-add.  The product and the sum are kept exactly; the sum  *)
(* is rounded either once, to the result format, or first to the format    *)
(* wide enough for the product and the addend and then to the result.      *)
FmaMid(fx, fy, fz) ==
    LET e == MaxI(fx[1], fy[1]) + 2
        f == fx[2] + fy[2] + 2
    IN  <<IF e > fz[1] THEN e ELSE fz[1] + 1, MaxI(f, fz[2])>>
FmaOf(fx, x, fy, y, fz, z) == FmaX(fx, x, fy, y, fz, z)
FmaOnce(fx, x, fy, y, fz, z, fr)  == Finish(fr, FmaX(fx, x, fy, y, fz, z))
FmaTwice(fx, x, fy, y, fz, z, fr) ==
    LET mid == FmaMid(fx, fy, fz)
    IN  FpConv(mid, Finish(mid, FmaX(fx, x, fy, y, fz, z)), fr)

-----------------------------------------------------------------------------
(* Dot products of positive normals, rounded towards zero. *)
DotX(fmt, xs) ==      \* xs: sequence of pairs; exact sum of products
    LET RECURSIVE Go(_)
        Go(i) == LET p == MulX(fmt, xs[i][1], fmt, xs[i][2])
                 IN  IF i = Len(xs) THEN p ELSE SumX(p, Go(i+1))
    IN  Go(1)
FinishTrunc(fr, t) == IF t[1] = 0 THEN t[2] ELSE Trunc(fr, t[2], t[3], t[4])

-----------------------------------------------------------------------------
(* The value line and its positions. *)
Mag(fmt, v) == Add(Shl(FromInt(v[3]), fmt[2]), v[4])     \* position among the positive normals
OfMag(fmt, s, g) ==
    IF BitLen(g) > fmt[1] + fmt[2] THEN VInf(s)
    ELSE <<NORM, s, ToInt(Shr(g, fmt[2])), Low(g, fmt[2])>>

(* Faithful reciprocal: the exact value if the format holds it, otherwise  *)
(* one of the two neighbours of the exact value, with the exponent then    *)
(* checked against the range as for a rounded result.                      *)
FaithfulInv(fx, x, fr) ==
    LET t == DivX(fx, VOne(fx), fx, x, fr)
    IN  IF t[1] = 0 THEN {t[2]}
        ELSE LET k == BitLen(t[3]) - (fr[2] + 1)
                 q == Shr(t[3], k)
                 lo == Pack(fr, t[2], q, t[4] + k)
             IN  IF Low(t[3], k) = << >> THEN {lo}
                 ELSE {lo, Pack(fr, t[2], Add(q, <<1>>), t[4] + k)}
FaithfulOk(fx, x, fr, r) ==
    /\ r[1] \in 0..3 /\ WellFormed(fr, r)
    /\ Canon(r) \in FaithfulInv(fx, x, fr)

-----------------------------------------------------------------------------
(* Order of the represented values: -1, 0, 1, or 2 for unordered. *)
CmpExact(a, b) ==     \* non-NaN exact results
    LET sgn(t) == IF t[1] = 1 THEN (IF t[2] = 1 THEN -1 ELSE 1)
                  ELSE IF t[2][1] = ZERO THEN 0
                  ELSE IF t[2][2] = 1 THEN -2 ELSE 2
        p == sgn(a)  q == sgn(b)
    IN  IF p # q THEN (IF p < q THEN -1 ELSE 1)
        ELSE IF p \in {-2, 0, 2} THEN 0
        ELSE LET x  == IF a[4] < b[4] THEN a[4] ELSE b[4]
                 c  == Cmp(Shl(a[3], a[4] - x), Shl(b[3], b[4] - x))
             IN  p * c
FpCmp(fx, x, fy, y) ==
    IF x[1] = NAN \/ y[1] = NAN THEN 2 ELSE CmpExact(Exact(fx, x), Exact(fy, y))

Holds(rel, o) ==
    CASE rel = "lt" -> o = -1
      [] rel = "le" -> o \in {-1, 0}
      [] rel = "eq" -> o = 0
      [] rel = "ne" -> o # 0
      [] rel = "ge" -> o \in {0, 1}
      [] rel = "gt" -> o = 1

-----------------------------------------------------------------------------
(* The value line: -inf, negative normals, -0, +0, positive normals, +inf. *)
NextUp(fmt, v) ==
    CASE v[1] = NAN -> VNaN
      [] v[1] = INF -> IF v[2] = 0 THEN VInf(0) ELSE <<NORM, 1, MaxExpF(fmt), Ones(fmt[2])>>
      [] v[1] = ZERO -> IF v[2] = 1 THEN VZero(0) ELSE <<NORM, 0, 0, << >> >>
      [] OTHER -> IF v[2] = 0 THEN OfMag(fmt, 0, Add(Mag(fmt, v), <<1>>))
                  ELSE IF Mag(fmt, v) = << >> THEN VZero(1)
                  ELSE OfMag(fmt, 1, Sub(Mag(fmt, v), <<1>>))
NextDown(fmt, v) == FlipSign(NextUp(fmt, FlipSign(v)))

\* Same or adjacent on the line, counting the two zeros as one point.
Within1Ulp(fmt, x, y) ==
    LET lim == Pow2(fmt[1] + fmt[2])
        g(v) == IF v[1] = INF THEN lim ELSE Mag(fmt, v)
        minN(v) == v[1] = NORM /\ v[3] = 0 /\ v[4] = << >>
    IN  CASE x[1] = NAN \/ y[1] = NAN -> x[1] = y[1]
          [] x[1] = ZERO -> y[1] = ZERO \/ minN(y)
          [] y[1] = ZERO -> minN(x)
          [] OTHER -> x[2] = y[2] /\ (LET a == g(x)  b == g(y)
                                     IN  IF Cmp(a, b) >= 0 THEN Cmp(Sub(a, b), <<1>>) <= 0
                                         ELSE Cmp(Sub(b, a), <<1>>) <= 0)

\* 0 NaN, 1 -inf, 2 -normal, 3 zero, 4 +normal, 5 +inf
EqualityClass(v) ==
    CASE v[1] = NAN  -> 0
      [] v[1] = ZERO -> 3
      [] v[1] = INF  -> IF v[2] = 1 THEN 1 ELSE 5
      [] OTHER       -> IF v[2] = 1 THEN 2 ELSE 4

\* is_zero, is_normal, is_inf, is_nan, is_positive, is_negative,
\* is_pos_normal, is_neg_normal, is_pos_zero, is_neg_zero, is_pos_inf, is_neg_inf
Preds(v) ==
    LET p == v[2] = 0
        z == v[1] = ZERO  n == v[1] = NORM  i == v[1] = INF
    IN  << Bool(z), Bool(n), Bool(i), Bool(v[1] = NAN), Bool(p), Bool(~p),
           Bool(p /\ n), Bool(~p /\ n), Bool(p /\ z), Bool(~p /\ z), Bool(p /\ i), Bool(~p /\ i) >>

\* Named values of a format.
Named(fmt, name) ==
    CASE name = "min"  -> <<NORM, 0, 0, << >> >>
      [] name = "neg_min" -> <<NORM, 1, 0, << >> >>
      [] name = "max"  -> <<NORM, 0, MaxExpF(fmt), Ones(fmt[2])>>
      [] name \in {"neg_max", "lowest"} -> <<NORM, 1, MaxExpF(fmt), Ones(fmt[2])>>
      [] name = "infinity" -> VInf(0)
      [] name = "neg_infinity" -> VInf(1)
      [] name = "quiet_NaN" -> VNaN
      [] name \in {"pos_zero", "zero"} -> VZero(0)
      [] name = "neg_zero" -> VZero(1)
      [] name \in {"pos_one", "one"} -> VOne(fmt)
      [] name = "neg_one" -> FlipSign(VOne(fmt))
      [] name = "denorm_min" -> <<NORM, 0, 0, << >> >>

\* The constants of a type: signed, integer, infinity, NaN, digits, radix, and
\* the exponents of the smallest and largest normal numbers 1.f * 2^e
\* ("flopoco" and "ieee" types) or, for types which follow the C++ standard's
\* convention, of 0.1f * 2^e.
Constants(fmt, kind) ==
    << 1, 0, 1, 1, fmt[2] + 1, 2 >> \o
    (CASE kind = "flopoco" -> << -Bias(fmt), Bias(fmt) + 1 >>
       [] kind = "ieee" -> << 1 - Bias(fmt), Bias(fmt) >>
       [] kind = "standard" -> << 2 - Bias(fmt), Bias(fmt) + 1 >>)

-----------------------------------------------------------------------------
(* IEEE 754 interchange encodings <<sign, exponent field, fraction>>.      *)
IEEEWellFormed(fmt, b) == b[1] \in 0..1 /\ b[2] \in 0..MaxExpF(fmt) /\ BitLen(b[3]) <= fmt[2]

\* The internal value: subnormals are flushed to zero.
FromIEEE(fmt, b) ==
    IF b[2] = 0 THEN VZero(b[1])
    ELSE IF b[2] = MaxExpF(fmt) THEN (IF b[3] = << >> THEN VInf(b[1]) ELSE VNaN)
    ELSE <<NORM, b[1], b[2], b[3]>>

\* An encoding that denotes the value v after its extreme exponents are
\* taken out: the smallest become zero, the largest infinity.
IsToIEEE(fmt, v, b) ==
    /\ IEEEWellFormed(fmt, b)
    /\ IF v[1] = NAN THEN b[2] = MaxExpF(fmt) /\ b[3] # << >>
       ELSE /\ b[1] = v[2]
            /\ CASE v[1] = ZERO \/ (v[1] = NORM /\ v[3] = 0) -> b[2] = 0 /\ b[3] = << >>
                 [] v[1] = INF \/ (v[1] = NORM /\ v[3] = MaxExpF(fmt)) -> b[2] = MaxExpF(fmt) /\ b[3] = << >>
                 [] OTHER -> b[2] = v[3] /\ b[3] = v[4]

\* flags, is_zero, is_normal, is_inf, is_nan, is_positive, is_negative,
\* is_pos_normal, is_neg_normal, is_pos_zero, is_neg_zero, is_pos_inf, is_neg_inf
IEEEPreds(fmt, b) ==
    LET v == FromIEEE(fmt, b)
        p == b[1] = 0
        z == v[1] = ZERO  n == v[1] = NORM  i == v[1] = INF
    IN  << v[1], Bool(z), Bool(n), Bool(i), Bool(v[1] = NAN), Bool(p), Bool(~p),
           Bool(p /\ n), Bool(~p /\ n), Bool(p /\ z), Bool(~p /\ z), Bool(p /\ i), Bool(~p /\ i) >>
IEEEEquals(fmt, a, b) ==
    LET u == FromIEEE(fmt, a)  v == FromIEEE(fmt, b)
    IN  IF u[1] = ZERO THEN v[1] = ZERO        \* zeros and subnormals of either sign
        ELSE u = v

\* Named encodings: the smallest and largest normals, and the specials.
IsIEEENamed(fmt, name, b) ==
    /\ IEEEWellFormed(fmt, b)
    /\ CASE name \in {"min", "denorm_min"} -> b = <<0, 1, << >> >>
         [] name = "neg_min" -> b = <<1, 1, << >> >>
         [] name = "max" -> b = <<0, MaxExpF(fmt) - 1, Ones(fmt[2])>>
         [] name \in {"neg_max", "lowest"} -> b = <<1, MaxExpF(fmt) - 1, Ones(fmt[2])>>
         [] name = "infinity" -> b = <<0, MaxExpF(fmt), << >> >>
         [] name = "neg_infinity" -> b = <<1, MaxExpF(fmt), << >> >>
         [] name = "quiet_NaN" -> b[2] = MaxExpF(fmt) /\ b[3] # << >>
         [] name \in {"pos_zero", "zero"} -> b = <<0, 0, << >> >>
         [] name = "neg_zero" -> b = <<1, 0, << >> >>
         [] name \in {"pos_one", "one"} -> b = <<0, Bias(fmt), << >> >>
         [] name = "neg_one" -> b = <<1, Bias(fmt), << >> >>

(* Promotion of an encoding to a format at least as wide in both fields    *)
(* denotes the same value.                                                 *)
IsIEEEPromoted(fmt, b, fr, r) ==
    /\ IEEEWellFormed(fr, r)
    /\ FromIEEE(fr, r) = FpConv(fmt, FromIEEE(fmt, b), fr)
IsIEEEOfPromoted(fmt, v, fr, r) ==
    /\ IEEEWellFormed(fr, r)
    /\ FromIEEE(fr, r) = FpConv(fmt, v, fr)
=============================================================================
