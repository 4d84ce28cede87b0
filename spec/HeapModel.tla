------------------------------ MODULE HeapModel -----------------------------
(***************************************************************************)
(* The compression networks as transition systems, with every schedule:    *)
(* any adder may fire wherever it can.  Checked by TLC from every small    *)
(* heap: the total modulo two to the width never changes, no step makes a  *)
(* heap ill-formed, and compression ends with a heap that is flat enough.  *)
(*                                                                         *)
(* cols   a column is a sequence of bits, the least significant column     *)
(*        first; rows a sequence of numbers below 2^W.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, H, D            \* width, largest height and number of rows at the start
ASSUME W \in Nat /\ H \in Nat /\ D \in Nat
VARIABLES kind, cols, rows, want
vars == <<kind, cols, rows, want>>

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
RECURSIVE Ones(_)
Ones(s) == IF s = << >> THEN 0 ELSE Head(s) + Ones(Tail(s))
RECURSIVE Weigh(_, _)
Weigh(c, i) == IF i > Len(c) THEN 0 ELSE Ones(c[i]) + 2 * Weigh(c, i + 1)
RECURSIVE Add(_)
Add(s) == IF s = << >> THEN 0 ELSE Head(s) + Add(Tail(s))
M == 2 ^ W

Init == \/ /\ kind = "bits" /\ cols \in [1..W -> Seqs({0, 1}, H)] /\ rows = << >>
           /\ want = Weigh(cols, 1) % M
        \/ /\ kind = "rows" /\ cols = << >> /\ rows \in UNION {[1..k -> 0..(M-1)] : k \in 2..D}
           /\ want = Add(rows) % M

Carry(c, i, b) == IF i = W THEN c ELSE [c EXCEPT ![i + 1] = Append(@, b)]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* A full adder takes three bits of a column, a half adder two.  (The half adder only fires
\* in a column that is higher than two or that may still receive a carry above two.)
Full(i) == /\ Len(cols[i]) >= 3
           /\ LET t == cols[i][1] + cols[i][2] + cols[i][3]
              IN  cols' = Carry([cols EXCEPT ![i] = Append(Drop(@, 3), t % 2)], i, t \div 2)
Half(i) == /\ Len(cols[i]) >= 2 /\ \E j \in 1..W : Len(cols[j]) > 2
           /\ LET t == cols[i][1] + cols[i][2]
              IN  cols' = Carry([cols EXCEPT ![i] = Append(Drop(@, 2), t % 2)], i, t \div 2)

BitAnd(x, y) == LET RECURSIVE F(_, _, _)
                    F(a, b, n) == IF n = 0 THEN 0 ELSE (a % 2) * (b % 2) + 2 * F(a \div 2, b \div 2, n - 1)
                IN  F(x, y, W)
BitOr(x, y) == x + y - BitAnd(x, y)
BitXor(x, y) == x + y - 2 * BitAnd(x, y)
\* A row of full adders takes any three rows.
Save(i, j, k) ==
    LET a == rows[i]  b == rows[j]  c == rows[k]
        rest == SelectSeq([n \in 1..Len(rows) |-> <<n, rows[n]>>], LAMBDA p : p[1] \notin {i, j, k})
        s == BitXor(BitXor(a, b), c)
        q == (2 * BitOr(BitOr(BitAnd(a, b), BitAnd(b, c)), BitAnd(a, c))) % M
    IN  rows' = [n \in 1..Len(rest) |-> rest[n][2]] \o <<s, q>>

BitStep == /\ kind = "bits" /\ \E i \in 1..W : Full(i) \/ Half(i)
           /\ UNCHANGED <<kind, rows, want>>
RowStep == /\ kind = "rows" /\ Len(rows) > 2
           /\ \E i \in 1..Len(rows) : \E j \in (i+1)..Len(rows) : \E k \in (j+1)..Len(rows) : Save(i, j, k)
           /\ UNCHANGED <<kind, cols, want>>
Next == BitStep \/ RowStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TotalKept == IF kind = "bits" THEN Weigh(cols, 1) % M = want ELSE Add(rows) % M = want
RowsFit == \A i \in 1..Len(rows) : rows[i] \in 0..(M-1)
Flat == IF kind = "bits" THEN \A i \in 1..W : Len(cols[i]) <= 2 ELSE Len(rows) <= 2
Ends == <>Flat
=============================================================================
