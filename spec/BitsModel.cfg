CONSTANTS
  H = 3
  MaxRev = 6
INIT Init
NEXT Next
INVARIANTS TypeOK ProductKept RotationLaws ReversalLaws
CHECK_DEADLOCK FALSE
