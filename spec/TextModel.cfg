SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Agrees Consumes Prefix RoundTrip Stable Signed Known
PROPERTY Stops
CHECK_DEADLOCK FALSE
