CONSTANTS
 M = 4
 Q = 17
 W = 3
 Vals = {0, 1}
INIT Init
NEXT Next
INVARIANTS Blocks Whole Inverse
CHECK_DEADLOCK FALSE
