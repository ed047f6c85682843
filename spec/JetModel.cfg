CONSTANT Depth = 2
INIT Init
NEXT Next
INVARIANT Derivatives Identities
CHECK_DEADLOCK FALSE
