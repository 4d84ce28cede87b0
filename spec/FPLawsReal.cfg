SPECIFICATION SpecReal
INVARIANT RealInv
CHECK_DEADLOCK FALSE
