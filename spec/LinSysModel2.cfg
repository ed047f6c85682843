CONSTANTS Grid <- G2
 N = 2
 Cmds <- Cm
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
