INIT Init
NEXT Next
INVARIANTS Recurrence Factorial HalfPi Duplication Narrow SignRule LogRule BetaRec Sound Poles
CHECK_DEADLOCK FALSE
