CONSTANT Lim = 2
INIT Init
NEXT Next
INVARIANT Orders Oriented Additive TailOK
CHECK_DEADLOCK FALSE
