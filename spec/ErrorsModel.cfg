SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Modes Signals Agree Total2 Single Memo
CHECK_DEADLOCK FALSE
