SPECIFICATION SpecIEEE
INVARIANT IEEEInv
CHECK_DEADLOCK FALSE
