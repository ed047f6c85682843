CONSTANTS
  Kinds = {"lcg", "xoshiro", "splitmix", "wyrand", "middle"}
  MaxLen = 60
INIT Init
NEXT Next
INVARIANTS FunctionOfHistory InWords EmitDone
CHECK_DEADLOCK FALSE
