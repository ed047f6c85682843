CONSTANTS
  Values = {"-2", "-1", "-1/2", "0", "1/3", "1", "3/2", "2", "3", "nan"}
  Depth = 3
INIT Init
NEXT Next
INVARIANT Counted Once1 Running
CHECK_DEADLOCK FALSE
