CONSTANT Max = 4
INIT Init
NEXT Next
INVARIANT Follows Leaves Cond Growth GridTest
CHECK_DEADLOCK FALSE
