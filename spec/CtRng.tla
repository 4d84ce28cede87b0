-------------------------------- MODULE CtRng -------------------------------
(***************************************************************************)
(* The compile-time generators and vectors, and the binary linear          *)
(* generator built from them.                                              *)
(*                                                                         *)
(* A generator is an affine map x -> (a x + c) mod m on numbers below m;   *)
(* n steps of it (n may be negative when it is invertible) are again an    *)
(* affine map, <<an, cn>>.                                                 *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets, SequencesExt

Gen(a, c, m, ai) == [a |-> a, c |-> c, m |-> m, ai |-> ai]
TwoTo32 == Pow2(32)
\* multipliers 1664525, 1588635695, 16807; increment 1013904223; moduli 2^32, 2^32-5, 2^31-1
Generator(name) ==
    CASE name = "2y32"   -> Gen(FromInt(1664525), FromInt(1013904223), TwoTo32, << >>)
      [] name = "2y32m5" -> Gen(FromInt(1588635695), << >>, Sub(TwoTo32, <<5>>), << >>)
      [] name = "minstd" -> Gen(FromInt(16807), << >>, FromInt(2147483647), << >>)

Apply(g, f, x) == Mod(Add(Mul(f[1], x), f[2]), g.m)
Then(g, f, h) == \* first f, then h
    <<Mod(Mul(f[1], h[1]), g.m), Apply(g, h, f[2])>>
Ident == << <<1>>, << >> >>
RECURSIVE Power(_, _, _)
Power(g, f, n) == IF n = << >> THEN Ident
                  ELSE LET h == Power(g, f, Shr(n, 1))
                           d == Then(g, h, h)
                       IN  IF IsOdd(n) THEN Then(g, d, f) ELSE d
Step(g, x) == Apply(g, <<g.a, g.c>>, x)
SkipFwd(g, x, n) == Apply(g, Power(g, <<g.a, g.c>>, n), x)
\* y is x after n steps, backwards if neg = 1 (then n steps lead from y to x).
IsSkip(g, x, neg, n, y) ==
    /\ Cmp(y, g.m) < 0
    /\ IF neg = 0 THEN y = SkipFwd(g, x, n) ELSE x = SkipFwd(g, y, n)

-----------------------------------------------------------------------------
(* Vectors. *)
Rotation(o, n) == [i \in 1..n |-> (o + i - 1) % n]
Swap(v, i, j) == [v EXCEPT ![i] = v[j], ![j] = v[i]]          \* 1-based
High(x) == ToInt(Shr(x, 16))                                    \* of a 32-bit number

\* For j = n down to 2, swap element j with the one at the generator's value mod j.
\* (Elements counted from 1; the generator moves on after each use.)  The result is <<vector, generator state>>.
RECURSIVE PermuteFrom(_, _, _, _)
PermuteFrom(g, x, v, j) ==
    IF j < 2 THEN <<v, x>>
    ELSE PermuteFrom(g, Step(g, x), Swap(v, j, (High(x) % j) + 1), j - 1)
Permute(g, x, v) == PermuteFrom(g, x, v, Len(v))

IsPermutationOf(v, u) == /\ Len(v) = Len(u)
                         /\ \A i \in 1..Len(u) : Cardinality({j \in 1..Len(v) : v[j] = u[i]}) =
                                                 Cardinality({j \in 1..Len(u) : u[j] = u[i]})

\* The elements of v, each once, in increasing order.
Unique(v) == SetToSortSeq({v[i] : i \in 1..Len(v)}, LAMBDA a, b : a < b)

-----------------------------------------------------------------------------
(* The binary linear generator of n bits with at most t taps and seed s:   *)
(* t permutations of the rotation, each made from the one before, name the *)
(* taps; one more permutation of the rotation orders the output.           *)
RECURSIVE Perms(_, _, _, _)
Perms(g, x, v, t) == IF t = 0 THEN << << >>, x>>
                     ELSE LET p == Permute(g, x, v)
                              rest == Perms(g, p[2], p[1], t - 1)
                          IN  << <<p[1]>> \o rest[1], rest[2]>>
\* Network: for each output bit, the most significant first, the set of state bits it is the sum of.
Network(n, t, s) ==
    LET g == Generator("2y32")
        ps == Perms(g, s, Rotation(1, n), t)
        outp == Permute(g, ps[2], Rotation(1, n))[1]
    IN  [i \in 1..n |-> {ps[1][j][outp[i] + 1] : j \in 1..t}]
\* One step; the state is the set of the positions of its ones.
Parity(S) == Cardinality(S) % 2
LutStep(n, net, S) == {k \in 0..(n-1) : Parity(net[n - k] \cap S) = 1}
=============================================================================
