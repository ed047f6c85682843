CONSTANT Depth = 6
INIT Init
NEXT Next
INVARIANT Exact Symmetric
CHECK_DEADLOCK FALSE
