SPECIFICATION Spec
CONSTANTS W = 3 H = 3 D = 4
INVARIANTS TotalKept RowsFit
PROPERTY Ends
CHECK_DEADLOCK FALSE
