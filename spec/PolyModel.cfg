CONSTANTS
 N = 4
 M = 3
INIT Init
NEXT Next
INVARIANTS Division Accepted Refuses Laws
PROPERTY Decreases
CHECK_DEADLOCK FALSE
