------------------------------ MODULE FixPoint ------------------------------
(***************************************************************************)
(* Unsigned fixed-point numbers.  A format is <<msb, lsb>>, a number of it *)
(* a BigNat m of msb - lsb + 1 bits, which stands for m * 2^lsb.           *)
(***************************************************************************)
EXTENDS BigNat

FixW(f) == f[1] - f[2] + 1
IsFix(f, m) == IsBigNat(m) /\ BitLen(m) <= FixW(f)
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b

\* The number of format f over the unit 2^u, u no greater than its own.
Over(f, m, u) == Shl(m, f[2] - u)
\* x - y modulo 2^w.
Minus(w, x, y) == Low(Sub(Add(Low(x, w), Pow2(w)), Low(y, w)), w)

FixMulF(f, g) == <<f[1] + g[1] + 1, f[2] + g[2]>>
FixSubF(f, g) == <<Mx(f[1], g[1]), Mn(f[2], g[2])>>
FixSub(f, x, g, y) == LET r == FixSubF(f, g)
                      IN  Minus(FixW(r), Over(f, x, r[2]), Over(g, y, r[2]))

\* m / 2^d to the nearest integer, ties to even.
Nearest(m, d) ==
    IF d <= 0 THEN Shl(m, 0 - d)
    ELSE LET q == Shr(m, d)  rest == Low(m, d)  c == Cmp(rest, Pow2(d - 1))
         IN  IF c > 0 \/ (c = 0 /\ IsOdd(q)) THEN Add(q, <<1>>) ELSE q
Down(m, d) == IF d <= 0 THEN Shl(m, 0 - d) ELSE Shr(m, d)

\* <<what is stored in w bits, whether the number did not fit>>
Fit(w, m) == <<Low(m, w), IF BitLen(m) > w THEN 1 ELSE 0>>
FixRound(f, m, lsb) == Fit(f[1] - lsb + 1, Nearest(m, lsb - f[2]))
FixTrunc(f, m, lsb) == Fit(f[1] - lsb + 1, Down(m, lsb - f[2]))
FixDrop(f, m, msb)  == Fit(msb - f[2] + 1, m)

\* One step of Newton's iteration for 1/y: 2z - z^2 y, rounded once to format r.
\* << >> when the step leaves the range of r, which the caller has to exclude.
FixNewton(f, z, g, y, r) ==
    LET u == Mn(2 * f[2] + g[2], Mn(f[2] + 1, r[2]))      \* a unit everything is a multiple of
        twice == Shl(z, f[2] + 1 - u)
        drop == Shl(Mul(Mul(z, z), y), 2 * f[2] + g[2] - u)
    IN  IF Cmp(twice, drop) < 0 THEN << >>
        ELSE LET n == Nearest(Sub(twice, drop), r[2] - u)
             IN  IF BitLen(n) > FixW(r) THEN << >> ELSE <<n>>

\* |r * 2^lr - 1/(y * 2^ly)| < tol * 2^lr / 2^h, for y > 0:  |r y - 2^k| 2^h < tol y.
Dist(a, b) == IF Cmp(a, b) >= 0 THEN Sub(a, b) ELSE Sub(b, a)
FixInvNear(r, lr, y, ly, tol, h) ==
    LET k == 0 - lr - ly IN Cmp(Shl(Dist(Mul(r, y), Pow2(k)), h), Mul(FromInt(tol), y)) < 0

\* The start value for the interval [a, b) = [y, y + 1) * 2^ly: the nearest to the middle of 1/a and
\* 1/b, one unit less where that is one.  (Its table is computed in double precision: 2^-30 is allowed.)
FixStart(r, lr, y, ly) ==
    LET a == y  b == Add(y, <<1>>)
        near(q) == LET d == Dist(Mul(Shl(q, 1), Mul(a, b)), Shl(Add(a, b), 0 - lr - ly))
                   IN  Cmp(Shl(d, 30), Mul(Mul(a, b), Add(Pow2(30), <<1>>))) <= 0
        one == Pow2(0 - lr)
    IN  IF r = Sub(one, <<1>>) THEN near(r) \/ near(one)
        ELSE Cmp(r, one) < 0 /\ near(r)
=============================================================================
