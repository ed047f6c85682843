CONSTANT Depth = 3
INIT Init
NEXT Next
INVARIANT Derivatives Identities
CHECK_DEADLOCK FALSE
