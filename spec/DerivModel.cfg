INIT Init
NEXT Next
INVARIANT ExactUpTo Leading
CHECK_DEADLOCK FALSE
