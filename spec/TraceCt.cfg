SPECIFICATION Spec
INVARIANT Report
INVARIANT NetOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
