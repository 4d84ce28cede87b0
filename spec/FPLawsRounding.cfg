SPECIFICATION Spec
INVARIANT RoundingInv
CHECK_DEADLOCK FALSE
