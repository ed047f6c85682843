CONSTANT B = 6
INIT Init
NEXT Next
INVARIANT Ops Misc
