SPECIFICATION Spec
CONSTANTS N = 9 E = 3
INVARIANTS IsOrder Transitive Shifts
CHECK_DEADLOCK FALSE
