------------------------------- MODULE Exchange -----------------------------
(***************************************************************************)
(* What a value is outside the library: an MPFR number, a double, the raw  *)
(* bits, and the text form.                                                *)
(*                                                                         *)
(* An MPFR number is <<class, sign, m, x>>: a normal one is m * 2^x with a *)
(* positive m of exactly as many bits as its precision.                    *)
(***************************************************************************)
EXTENDS IEEE754, TLC

MPExact(u) == CASE u[1] = NORM -> Dyadic(u[2], u[3], u[4])
                [] u[1] = NAN  -> Special(VNaN)
                [] OTHER       -> Special(<<u[1], u[2], 0, << >> >>)

\* The same number: dyadics are compared by value.
SameExact(a, b) ==
    IF a[1] = 1 /\ b[1] = 1
    THEN /\ a[2] = b[2]
         /\ LET x == IF a[4] < b[4] THEN a[4] ELSE b[4]
            IN  Shl(a[3], a[4] - x) = Shl(b[3], b[4] - x)
    ELSE a = b

\* A dyadic rounded to p bits: n nearest even, z towards zero, u up, d down, a away.
RoundTo(p, mode, t) ==
    IF t[1] = 0 THEN t
    ELSE LET k == BitLen(t[3]) - p
             q == Shr(t[3], k)
             up == CASE mode = "n" -> LET c == Cmp(Low(t[3], k), Pow2(k-1)) IN c > 0 \/ (c = 0 /\ IsOdd(q))
                     [] mode = "z" -> FALSE
                     [] mode = "a" -> TRUE
                     [] mode = "u" -> t[2] = 0
                     [] mode = "d" -> t[2] = 1
         IN  IF k <= 0 \/ Low(t[3], k) = << >> THEN t
             ELSE Dyadic(t[2], IF up THEN Add(q, <<1>>) ELSE q, t[4] + k)

\* A normal exponent: the number is neither too large nor too small.
InRange(fmt, t) == t[1] = 0 \/ Round(fmt, t[2], t[3], t[4])[1] = NORM

\* The same for an encoding without subnormals.
IEEEInRange(fmt, t) == t[1] = 0 \/ (LET e == t[4] + BitLen(t[3]) - 1 IN e >= 1 - Bias(fmt) /\ e <= Bias(fmt))

\* From a double: truncated towards zero; subnormal doubles count as zero.
FromDouble(fmt, d) ==
    IF d[2] = 0 THEN VZero(d[1])
    ELSE LET t == IValue(DOUBLE, d)
         IN  IF t[1] = 0 THEN t[2] ELSE Trunc(fmt, t[2], t[3], t[4])

\* The raw bits: flags, sign, exponent, fraction from the top.
RawBits(fmt, v) == Add(v[4], Shl(FromInt(v[3] + P2[fmt[1]] * (v[2] + 2 * v[1])), fmt[2]))

-----------------------------------------------------------------------------
(* The text form. *)
BitAt(n, i) == IF IsOdd(Shr(n, i)) THEN "1" ELSE "0"
BinText(w, n) ==       \* 0b, most significant bit first, a _ before every eighth
    LET RECURSIVE Go(_)
        Go(i) == IF i < 0 THEN ""
                 ELSE BitAt(n, i) \o (IF i % 8 = 0 /\ i > 0 THEN "_" ELSE "") \o Go(i - 1)
    IN  "0b" \o Go(w - 1)

\* Up to the approximate decimal value.
Text(fmt, v) ==
    BinText(fmt[1] + fmt[2] + 3, RawBits(fmt, v)) \o
    CASE v[1] = ZERO -> (IF v[2] = 1 THEN " -zero" ELSE " +zero")
      [] v[1] = INF  -> (IF v[2] = 1 THEN "-inf" ELSE "+inf")
      [] v[1] = NAN  -> " nan"
      [] OTHER -> " normal e=" \o BinText(fmt[1], FromInt(v[3])) \o "=" \o ToString(v[3] - Bias(fmt))
                  \o ", f=" \o BinText(fmt[2], v[4])

\* The text form of an encoding (subnormals count as zero).
IEEEText(fmt, b) ==
    BinText(fmt[1] + fmt[2] + 1, Add(b[3], Shl(FromInt(b[2] + P2[fmt[1]] * b[1]), fmt[2]))) \o
    CASE b[2] = 0 -> (IF b[1] = 1 THEN " -zero" ELSE " +zero")
      [] b[2] = MaxExpF(fmt) /\ b[3] = << >> -> (IF b[1] = 1 THEN "-inf" ELSE "+inf")
      [] b[2] = MaxExpF(fmt) -> " nan"
      [] OTHER -> " normal e=" \o BinText(fmt[1], FromInt(b[2])) \o "=" \o ToString(b[2] - Bias(fmt))
                  \o " f=" \o BinText(fmt[2], b[3])
=============================================================================
