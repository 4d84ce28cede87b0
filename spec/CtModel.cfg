SPECIFICATION Spec
CONSTANTS MODULI = {5, 7, 8, 16} LAST = 20 NV = 6 NB = 3
INVARIANTS SkipIsWalking SkipsCompose KeepsElements Linear
CHECK_DEADLOCK FALSE
