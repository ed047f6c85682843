CONSTANTS
  H = 3
  MaxRev = 6
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
