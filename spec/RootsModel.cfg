CONSTANT N = 6
INIT Init
NEXT Next
INVARIANT Bracketed Shrinks Accepted
CHECK_DEADLOCK FALSE
