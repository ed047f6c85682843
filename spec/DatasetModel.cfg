CONSTANTS MaxN = 7
  P = 4
  Vals <- TheVals
  MaxL = 5
SPECIFICATION Spec
INVARIANTS OnceEach AllSummed CompBound
PROPERTY Ends
CHECK_DEADLOCK FALSE
