CONSTANTS
 N = 2
 Grid <- G
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
