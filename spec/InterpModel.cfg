INIT Init
NEXT Next
INVARIANT Pivot Natural Unique Curve Hull Last Unity
CHECK_DEADLOCK FALSE
