CONSTANTS MaxOps = 14
 Grid = {0}
INIT GenInit
NEXT GenNext
INVARIANT GenDone
CHECK_DEADLOCK FALSE
