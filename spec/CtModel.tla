------------------------------- MODULE CtModel ------------------------------
(***************************************************************************)
(* Design-level facts about generators and permutations, with every choice *)
(* of parameters and draws in small instances:                             *)
(*  - skipping by repeated squaring is stepping (a walker that moves one   *)
(*    step at a time is always where the skip says), also backwards;       *)
(*  - the swaps of the permutation keep every element, whatever is drawn;  *)
(*  - steps of the xor network are linear.                                 *)
(***************************************************************************)
EXTENDS CtRng
CONSTANTS MODULI, LAST, NV, NB
VARIABLES kind, g, x0, x, n,      \* a walker on a small generator
          v, j,                   \* a vector being permuted, next position
          nw, S, T                \* a network and two states
vars == <<kind, g, x0, x, n, v, j, nw, S, T>>

Nums(m) == {FromInt(i) : i \in 0..(m - 1)}
Init == \/ /\ kind = "walk"
           /\ \E m \in MODULI, a \in 1..4, c \in 0..2 : a < m /\ g = Gen(FromInt(a), FromInt(c), FromInt(m), << >>)
           /\ x0 \in Nums(ToInt(g.m)) /\ x = x0 /\ n = 0
           /\ v = << >> /\ j = 0 /\ nw = << >> /\ S = {} /\ T = {}
        \/ /\ kind = "perm" /\ \E q \in 1..NV : v = Rotation(1, q) /\ j = q
           /\ g = 0 /\ x0 = 0 /\ x = 0 /\ n = 0 /\ nw = << >> /\ S = {} /\ T = {}
        \/ /\ kind = "net" /\ \E q \in 1..NB : /\ nw \in [1..q -> SUBSET (0..(q-1)) \ {{}}]
                                                /\ S \in SUBSET (0..(q-1)) /\ T \in SUBSET (0..(q-1))
           /\ g = 0 /\ x0 = 0 /\ x = 0 /\ n = 0 /\ v = << >> /\ j = 0
Walk == kind = "walk" /\ n < LAST /\ x' = Step(g, x) /\ n' = n + 1 /\ UNCHANGED <<kind, g, x0, v, j, nw, S, T>>
Draw == kind = "perm" /\ j >= 2 /\ (\E i \in 1..j : v' = Swap(v, j, i)) /\ j' = j - 1
        /\ UNCHANGED <<kind, g, x0, x, n, nw, S, T>>
Next == Walk \/ Draw
Spec == Init /\ [][Next]_vars

SkipIsWalking == kind = "walk" => /\ x = SkipFwd(g, x0, FromInt(n))
                                  /\ IsSkip(g, x0, 0, FromInt(n), x)
                                  /\ IsSkip(g, x, 1, FromInt(n), x0)
SkipsCompose == kind = "walk" => \A i \in 0..n : SkipFwd(g, SkipFwd(g, x0, FromInt(i)), FromInt(n - i)) = x
KeepsElements == kind = "perm" => IsPermutationOf(v, Rotation(1, Len(v)))
Linear == kind = "net" =>
    LET q == Len(nw)
        SX == (S \ T) \cup (T \ S)
        A == LutStep(q, nw, S)  B == LutStep(q, nw, T)
    IN  LutStep(q, nw, SX) = (A \ B) \cup (B \ A)
=============================================================================
