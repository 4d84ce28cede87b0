SPECIFICATION Spec
INVARIANT OrderInv
CHECK_DEADLOCK FALSE
