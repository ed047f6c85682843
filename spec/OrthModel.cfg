CONSTANTS
 N = 18
INIT Init
NEXT Next
INVARIANTS Orthogonal Exact Norm Ends Ode
CHECK_DEADLOCK FALSE
