CONSTANTS
  W = 9
  K = 2
INIT Init
NEXT Next
INVARIANTS InWord Bracket NoZeroDivision Correct
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
