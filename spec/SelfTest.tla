------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* The self test of a number type: every ordered pair of its operands is   *)
(* given to nine operations of the type, and each result is compared with  *)
(* a reference.  Relations agree when the truth values are the same;       *)
(* arithmetic results agree when they are the same value, where the two    *)
(* zeros are one value and NaN is only itself.                             *)
(*                                                                         *)
(* Values are <<class, sign, exponent, fraction>> as in FPFormat, with     *)
(* class 0 zero, 1 normal, 2 infinity, 3 NaN.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Relations == {"Equal", "NotEqual", "LessThan", "LessThanEqual", "GreaterThan", "GreaterThanEqual"}
Arithmetic == {"Mul", "Add", "Div"}
Operations == Relations \cup Arithmetic

SameValue(x, y) ==
    /\ x[1] = y[1]
    /\ CASE x[1] \in {0, 3} -> TRUE
         [] x[1] = 2 -> x[2] = y[2]
         [] OTHER -> x = y

Agree(op, got, want) == IF op \in Relations THEN got = want ELSE SameValue(got, want)

\* The account of a run: per operation, how many results were compared and how many disagreed.
NewAccount == [op \in Operations |-> [failed |-> 0, total |-> 0]]
Enter(account, op, agrees, times) ==
    [account EXCEPT ![op] = [failed |-> @.failed + (IF agrees THEN 0 ELSE times), total |-> @.total + times]]

RECURSIVE Sum(_, _, _)
Sum(F(_), S, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE y \in S : TRUE IN Sum(F, S \ {x}, acc + F(x))

FailedOps(account) == {op \in Operations : account[op].failed > 0}
Summary(account) == [ops |-> Cardinality(FailedOps(account)),
                     of |-> Cardinality({op \in Operations : account[op].total > 0}),
                     results |-> Sum(LAMBDA op : account[op].failed, Operations, 0),
                     total |-> Sum(LAMBDA op : account[op].total, Operations, 0)]
Verdict(account) == FailedOps(account) # {}      \* TRUE: the type fails its self test
=============================================================================
