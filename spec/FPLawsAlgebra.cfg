SPECIFICATION Spec
INVARIANT AlgebraInv
CHECK_DEADLOCK FALSE
