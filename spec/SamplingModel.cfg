CONSTANT N = 4
INIT Init
NEXT Next
INVARIANT Permutation
CHECK_DEADLOCK FALSE
