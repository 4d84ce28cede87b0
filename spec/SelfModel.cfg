SPECIFICATION Spec
CONSTANTS OPS = {"Equal", "Mul"} NIN = 2
INVARIANTS Counts Judged Complete
CHECK_DEADLOCK FALSE
