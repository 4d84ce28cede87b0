SPECIFICATION Spec
CONSTANT Bits = 5
INVARIANT NearestOk
INVARIANT DownOk
INVARIANT FinerOk
INVARIANT SubOk
INVARIANT NewtonOk
INVARIANT FaithfulOk
CHECK_DEADLOCK FALSE
