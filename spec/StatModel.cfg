CONSTANT MaxN = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Minimal
INVARIANT Recover
INVARIANT Moments
INVARIANT Deming
INVARIANT Chi
