SPECIFICATION Spec
CONSTANTS W = 4 H = 3 D = 5
INVARIANTS TotalKept RowsFit
PROPERTY Ends
CHECK_DEADLOCK FALSE
