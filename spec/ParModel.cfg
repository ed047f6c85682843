CONSTANTS MaxN = 5
  MaxT = 3
SPECIFICATION Spec
INVARIANTS Allowed Sequential OneWriter
PROPERTY Ends
CHECK_DEADLOCK FALSE
