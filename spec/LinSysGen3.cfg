CONSTANTS Grid <- G3
 N = 3
 Cmds <- Cm
INIT Init
NEXT Next
INVARIANT Gen
CHECK_DEADLOCK FALSE
