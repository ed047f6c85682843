CONSTANTS Grid <- GX
 N = 3
 Cmds <- Cm
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
