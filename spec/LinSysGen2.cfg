CONSTANTS Grid <- G2
 N = 2
 Cmds <- Cm
INIT Init
NEXT Next
INVARIANT Gen
CHECK_DEADLOCK FALSE
