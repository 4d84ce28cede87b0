SPECIFICATION Spec
INVARIANT Report
INVARIANT RegsOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
