CONSTANTS
 M = 3
 Q = 17
 W = 2
 Vals = {0, 1, 5}
INIT Init
NEXT Next
INVARIANTS Blocks Whole Inverse
CHECK_DEADLOCK FALSE
