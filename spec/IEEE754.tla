------------------------------- MODULE IEEE754 ------------------------------
(***************************************************************************)
(* IEEE 754 binary arithmetic with subnormals, rounding to nearest, ties   *)
(* to even.  An encoding of format <<E, F>> is <<sign, exponent field,     *)
(* fraction>>; exact results are those of FPArith.                         *)
(***************************************************************************)
EXTENDS FPArith

SINGLE == <<8, 23>>
DOUBLE == <<11, 52>>

\* The exact value an encoding denotes.
IValue(fmt, b) ==
    IF b[2] = MaxExpF(fmt) THEN Special(IF b[3] = << >> THEN VInf(b[1]) ELSE VNaN)
    ELSE IF b[2] = 0 THEN (IF b[3] = << >> THEN Special(VZero(b[1]))
                           ELSE Dyadic(b[1], b[3], 1 - Bias(fmt) - fmt[2]))
    ELSE Dyadic(b[1], Add(Pow2(fmt[2]), b[3]), b[2] - Bias(fmt) - fmt[2])

IIsNaN(fmt, b) == b[2] = MaxExpF(fmt) /\ b[3] # << >>
IInf(fmt, s) == <<s, MaxExpF(fmt), << >> >>

\* The encoding nearest to a non-zero dyadic.
IRound(fmt, s, m, x) ==
    LET F    == fmt[2]
        lsb  == MaxI(x + BitLen(m) - (F + 1), 1 - Bias(fmt) - F)   \* weight of the last place
        k    == lsb - x
        q    == IF k <= 0 THEN Shl(m, -k) ELSE RoundSig(F, m, k)
        n    == BitLen(q)
        e    == IF n <= F THEN 0 ELSE lsb + F + Bias(fmt) + Bool(n > F + 1)
    IN  IF e >= MaxExpF(fmt) THEN IInf(fmt, s)
        ELSE IF n <= F THEN <<s, 0, q>>
        ELSE <<s, e, IF n > F + 1 THEN << >> ELSE Low(q, F)>>

\* b encodes the exact result t, rounded.
IsEncoding(fmt, t, b) ==
    /\ b[1] \in 0..1 /\ b[2] \in 0..MaxExpF(fmt) /\ BitLen(b[3]) <= fmt[2]
    /\ IF t[1] = 1 THEN b = IRound(fmt, t[2], t[3], t[4])
       ELSE CASE t[2][1] = NAN  -> IIsNaN(fmt, b)
              [] t[2][1] = INF  -> b = IInf(fmt, t[2][2])
              [] t[2][1] = ZERO -> b = <<t[2][2], 0, << >> >>

-----------------------------------------------------------------------------
(* Products and quotients of exact results. *)
SignT(t) == IF t[1] = 1 THEN t[2] ELSE t[2][2]
ClassT(t) == IF t[1] = 1 THEN NORM ELSE t[2][1]
MulT(a, b) ==
    LET s == XorS(SignT(a), SignT(b))  p == ClassT(a)  q == ClassT(b)
    IN  CASE p = NORM /\ q = NORM -> Dyadic(s, Mul(a[3], b[3]), a[4] + b[4])
          [] p = NAN \/ q = NAN -> Special(VNaN)
          [] p = INF \/ q = INF -> Special(IF p = ZERO \/ q = ZERO THEN VNaN ELSE VInf(s))
          [] OTHER -> Special(VZero(s))
\* To at least bits bits and a sticky bit.
DivT(a, b, bits) ==
    LET s == XorS(SignT(a), SignT(b))  p == ClassT(a)  q == ClassT(b)
    IN  CASE p = NORM /\ q = NORM ->
                 LET k == BitLen(b[3]) + bits
                     n == Shl(a[3], k)
                     d == Div(n, b[3])
                     t == IF Mul(d, b[3]) = n THEN << >> ELSE <<1>>
                 IN  Dyadic(s, Add(Shl(d, 1), t), a[4] - b[4] - k - 1)
          [] p = NAN \/ q = NAN -> Special(VNaN)
          [] p = INF  -> Special(IF q = INF THEN VNaN ELSE VInf(s))
          [] q = INF  -> Special(VZero(s))
          [] q = ZERO -> Special(IF p = ZERO THEN VNaN ELSE VInf(s))
          [] OTHER    -> Special(VZero(s))

-----------------------------------------------------------------------------
(* Named encodings of a full IEEE format. *)
IsSoftNamed(fmt, name, b) ==
    CASE name = "min" -> b = <<0, 1, << >> >>
      [] name = "max" -> b = <<0, MaxExpF(fmt) - 1, Ones(fmt[2])>>
      [] name = "lowest" -> b = <<1, MaxExpF(fmt) - 1, Ones(fmt[2])>>
      [] name = "infinity" -> b = IInf(fmt, 0)
      [] name = "quiet_NaN" -> IIsNaN(fmt, b) /\ BitLen(b[3]) = fmt[2]
      [] name = "denorm_min" -> b = <<0, 0, <<1>> >>
      [] name = "epsilon" -> b = <<0, Bias(fmt) - fmt[2], << >> >>
      [] name = "round_error" -> b = <<0, Bias(fmt) - 1, << >> >>

(* Import of a number: a representable one becomes its encoding.  Others   *)
(* are refused (<<9, 2>>), unless overflow and underflow to zero are       *)
(* allowed and that is what rounding gives; one that rounds to a subnormal *)
(* or to the smallest normal may be refused or rounded then.               *)
SameValue(a, b) ==
    IF a[1] = 1 /\ b[1] = 1
    THEN LET x == IF a[4] < b[4] THEN a[4] ELSE b[4]
         IN  a[2] = b[2] /\ Shl(a[3], a[4] - x) = Shl(b[3], b[4] - x)
    ELSE a = b
SoftImport(fmt, t, allow, r) ==
    LET b == IF t[1] = 1 THEN IRound(fmt, t[2], t[3], t[4]) ELSE << >>
        refused == r[1] = 9 /\ r[2] = 2
        out == b[2] = MaxExpF(fmt) \/ (b[2] = 0 /\ b[3] = << >>)
    IN  IF t[1] = 0 \/ SameValue(IValue(fmt, b), t) THEN IsEncoding(fmt, t, r)
        ELSE IF allow = 1 /\ out THEN r = b
        ELSE IF allow = 1 /\ (b[2] = 0 \/ (b[2] = 1 /\ b[3] = << >>)) THEN refused \/ r = b
        ELSE refused

\* How a rounding went, for measuring what a run covered.
IKind(fmt, t) ==
    IF t[1] = 0 THEN <<"special", t[2][1]>>
    ELSE LET b == IRound(fmt, t[2], t[3], t[4])
             lsb == MaxI(t[4] + BitLen(t[3]) - (fmt[2] + 1), 1 - Bias(fmt) - fmt[2])
             k == lsb - t[4]
             c == IF k <= 0 \/ Low(t[3], k) = << >> THEN 3 ELSE Cmp(Low(t[3], k), Pow2(k - 1))
         IN  <<CASE b[2] = MaxExpF(fmt) -> "overflow" [] b[2] = 0 /\ b[3] = << >> -> "zero"
                 [] b[2] = 0 -> "subnormal" [] OTHER -> "normal",
               CASE c = 3 -> "exact" [] c = 0 -> "tie" [] c = 1 -> "up" [] OTHER -> "down">>
=============================================================================
