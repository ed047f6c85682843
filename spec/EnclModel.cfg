INIT Init
NEXT Next
INVARIANTS Pythagoras SineSum CosSum SmallSine ExpSum LnProd ExpLn AtanTan AsinSin SqrtSq Angle Digits DigitsE
CHECK_DEADLOCK FALSE
