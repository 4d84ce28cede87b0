------------------------------ MODULE Lockstep ------------------------------
(***************************************************************************)
(* Several copies of the register machine of FPMachine run one program in  *)
(* lockstep.  They start from register files that mean the same but have   *)
(* their unspecified bits (the exponent and fraction of zeros, infinities  *)
(* and NaNs, the sign of NaNs) set in different ways, and these bits may   *)
(* be set anew between steps ("blur").  Whatever the operation is, the     *)
(* copies must keep meaning the same: this is a property of pairs of runs, *)
(* and needs no definition of what the operation computes.                 *)
(***************************************************************************)
EXTENDS FPMachine

\* The copies mean the same.
Agree(types, files) ==
    \A i \in DOMAIN types : \A k \in 2..Len(files) : Same(types[i], files[1][i], files[k][i])

\* All copies hold well-formed values.
Defined(types, files) == \A k \in 1..Len(files) : TypeOK(types, files[k])

Written(ins) == {ins.d[j] : j \in 1..Len(ins.d)}

\* One step of all copies: what is not written stays, bit for bit, in every copy.
\* A blur keeps meanings only, and only it may touch a register without writing it.
Lock(types, files, ins, new) ==
    /\ Len(new) = Len(files)
    /\ \A k \in 1..Len(new) :
          /\ DOMAIN new[k] = DOMAIN types
          /\ \A i \in DOMAIN types :
                IF i \notin Written(ins) THEN new[k][i] = files[k][i]
                ELSE /\ WF(types[i], new[k][i])
                     /\ ins.op = "blur" => Same(types[i], new[k][i], files[k][i])
    /\ Agree(types, new)

\* How the unspecified bits of the operands differed between the copies, for the report.
Differ(types, files, ins) ==
    {<<IF types[ins.s[j]][1] = 0 THEN files[1][ins.s[j]][1] ELSE 9, files[1][ins.s[j]] # files[2][ins.s[j]]>> : j \in 1..Len(ins.s)}
=============================================================================
