------------------------------- MODULE Kernels ------------------------------
(***************************************************************************)
(* The programs the library ships on top of its operations: sums, dot      *)
(* products, matrix products and adders of several words.                  *)
(*                                                                         *)
(* A reduction is a machine with an accumulator: it starts as the positive *)
(* zero, and every step adds the next term and stores the rounded sum.     *)
(* A type is <<kind, E, F>> as in FPMachine; accumulator and terms are     *)
(* exact results, Stored rounds them to a type.                            *)
(***************************************************************************)
EXTENDS FPMachine

Start == Special(VZero(0))

\* One step of a reduction: the term, already stored in its own type, is added.
Accumulate(t, acc, term) == Stored(t, SumX(acc, term))
Term(tm, x, y) == Stored(tm, MulT(x, y))

\* acc after all of xs.
SumOf(t, xs) ==
    LET RECURSIVE Go(_, _)
        Go(i, acc) == IF i > Len(xs) THEN acc ELSE Go(i + 1, Accumulate(t, acc, xs[i]))
    IN  Go(1, Start)
\* The products are stored in tm, the sum in t.
DotOf(t, tm, xs, ys) ==
    LET RECURSIVE Go(_, _)
        Go(i, acc) == IF i > Len(xs) THEN acc ELSE Go(i + 1, Accumulate(t, acc, Term(tm, xs[i], ys[i])))
    IN  Go(1, Start)
\* The unrolled kernels add two terms to each other before the accumulator.
PairsOf(t, ts) ==
    LET RECURSIVE Go(_, _)
        Go(i, acc) == IF i > Len(ts) THEN acc ELSE Go(i + 2, Accumulate(t, acc, Accumulate(t, ts[i], ts[i + 1])))
    IN  Go(1, Start)
Terms(tm, xs, ys) == [i \in 1..Len(xs) |-> Term(tm, xs[i], ys[i])]
\* Four values: the two halves first, or from the right.
Balanced(t, xs) == Accumulate(t, Accumulate(t, xs[1], xs[2]), Accumulate(t, xs[3], xs[4]))
FromRight(t, xs) == Accumulate(t, xs[1], Accumulate(t, xs[2], Accumulate(t, xs[3], xs[4])))

\* Four products, added as a balanced tree.
Dot4Of(t, tm, xs, ys) ==
    Balanced(t, Terms(tm, xs, ys))

\* Rows of xs times columns of ys, both n by n in row order.
RowOf(n, xs, k) == [i \in 1..n |-> xs[((k - 1) \div n) * n + i]]
ColumnOf(n, ys, k) == [i \in 1..n |-> ys[(i - 1) * n + ((k - 1) % n) + 1]]
EntryOf(t, tm, n, xs, ys, k) ==
    DotOf(t, tm, RowOf(n, xs, k), ColumnOf(n, ys, k))
PairEntryOf(t, tm, n, xs, ys, k) ==
    PairsOf(t, Terms(tm, RowOf(n, xs, k), ColumnOf(n, ys, k)))

\* Words of w bits.
RECURSIVE WordSum(_, _)
WordSum(w, ws) == IF ws = << >> THEN << >> ELSE Low(Add(ws[1], WordSum(w, Tail(ws))), w)
=============================================================================
