-------------------------------- MODULE Heaps -------------------------------
(***************************************************************************)
(* Heaps of bits and of rows that wait to be added up.                     *)
(*                                                                         *)
(* A bit heap is its columns, the least significant first; a column is     *)
(* <<height, ones>>: how many bits it holds and how many of them are set.  *)
(* It stands for the sum of its bits, and as a result for that sum modulo  *)
(* two to its width.  A row heap is <<width, rows>>.                       *)
(*                                                                         *)
(* Each operation is a relation between the heaps it takes and the heap it *)
(* makes: building, merging and padding keep the sum, compression may drop *)
(* what is carried out of the top (and nothing else) and leaves at most    *)
(* two bits in a column, or two rows.                                      *)
(***************************************************************************)
EXTENDS BigNat

RECURSIVE SumFrom(_, _)
SumFrom(h, i) == IF i > Len(h) THEN << >>
                 ELSE Add(FromInt(h[i][2]), Shl(SumFrom(h, i + 1), 1))
BHSum(h) == SumFrom(h, 1)
BHTotal(h) == Low(BHSum(h), Len(h))
BHWell(h) == \A i \in 1..Len(h) : 0 <= h[i][2] /\ h[i][2] <= h[i][1]
BHHeight(h) == LET RECURSIVE M(_)
                   M(i) == IF i > Len(h) THEN 0 ELSE MaxI(h[i][1], M(i + 1))
               IN  M(1)

RECURSIVE RowSum(_, _)
RowSum(rows, i) == IF i > Len(rows) THEN << >> ELSE Add(rows[i], RowSum(rows, i + 1))
RHSum(r) == RowSum(r[2], 1)
RHTotal(r) == Low(RHSum(r), r[1])
RHWell(r) == \A i \in 1..Len(r[2]) : BitLen(r[2][i]) <= r[1]

RECURSIVE PopFrom(_, _, _)
PopFrom(x, w, i) == IF i = w THEN 0 ELSE Bit(x, i) + PopFrom(x, w, i + 1)

\* The heaps that step s may make, from the inputs and the heaps made before (hs).
BHStep(s, ins, hs, r) ==
    CASE s.k = "num"      -> Len(r) = s.w /\ BHSum(r) = ins[s.n]
      [] s.k = "raw"      -> r = [i \in 1..Len(s.h) |-> <<s.h[i], PopFrom(ins[s.n[i]], s.h[i], 0)>>]
      [] s.k = "merge"    -> /\ Len(r) = MaxI(Len(hs[s.a]), Len(hs[s.b]))
                             /\ BHSum(r) = Add(BHSum(hs[s.a]), BHSum(hs[s.b]))
      [] s.k = "pad"      -> Len(r) = s.w /\ BHSum(r) = BHSum(hs[s.a])
      [] s.k = "compress" -> /\ Len(r) = Len(hs[s.a])
                             /\ BHTotal(r) = BHTotal(hs[s.a])
                             /\ BHHeight(r) <= 2
      [] s.k = "mul"      -> /\ Len(r) = s.w
                             /\ BHTotal(r) = Low(Mul(ins[s.n], ins[s.m]), s.w)

RHStep(s, ins, hs, r) ==
    CASE s.k = "num"      -> r[1] = s.w /\ RHSum(r) = ins[s.n]
      [] s.k = "join"     -> /\ r[1] = MaxI(hs[s.a][1], hs[s.b][1])
                             /\ RHSum(r) = Add(RHSum(hs[s.a]), RHSum(hs[s.b]))
      [] s.k = "addnum"   -> /\ r[1] = MaxI(hs[s.a][1], s.w)
                             /\ RHSum(r) = Add(RHSum(hs[s.a]), ins[s.n])
      [] s.k = "compress" -> /\ r[1] = hs[s.a][1]
                             /\ RHTotal(r) = RHTotal(hs[s.a])
                             /\ Len(r[2]) <= 2

\* The text of a bit heap, as character codes; base-ten numerals below 1000.
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>>
          ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
BinDigits(x) == IF x = << >> THEN <<48>>
                ELSE LET n == BitLen(x) IN [i \in 1..n |-> 48 + Bit(x, n - i)]
BHText(h) ==
    LET n == Len(h)
    IN  <<66, 72, 91, 87, 61>> \o Dec(n) \o <<44, 77, 72, 61>> \o Dec(BHHeight(h)) \o
        <<44, 98, 105, 116, 115, 61, 48, 98>> \o BinDigits(BHTotal(h)) \o <<44, 72, 61>> \o
        [i \in 1..n |-> IF h[n + 1 - i][1] > 9 THEN 94 ELSE 48 + h[n + 1 - i][1]] \o <<93>>
=============================================================================
