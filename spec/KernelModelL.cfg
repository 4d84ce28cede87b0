SPECIFICATION Spec
CONSTANTS E = 4 F = 4 N = 5
INVARIANTS WellKept ZeroStays Absorbing NonNegative Swaps
PROPERTY Grows
CHECK_DEADLOCK FALSE
