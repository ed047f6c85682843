CONSTANT N = 5
INIT Init
NEXT Next
INVARIANT Bracketed Judged GJudged
PROPERTY Decreases
CHECK_DEADLOCK FALSE
