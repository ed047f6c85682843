CONSTANTS Dim = 3
 Grid = {0}
 MaxOps = 14
INIT GenInit
NEXT GenNext
INVARIANT GenDone
CHECK_DEADLOCK FALSE
