SPECIFICATION Spec
CONSTANTS MODULI = {5, 7, 8, 16, 31, 32} LAST = 40 NV = 8 NB = 3
INVARIANTS SkipIsWalking SkipsCompose KeepsElements Linear
CHECK_DEADLOCK FALSE
