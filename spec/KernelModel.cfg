SPECIFICATION Spec
CONSTANTS E = 3 F = 3 N = 4
INVARIANTS WellKept ZeroStays Absorbing NonNegative Swaps
PROPERTY Grows
CHECK_DEADLOCK FALSE
