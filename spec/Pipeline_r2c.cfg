SPECIFICATION Spec
CONSTANTS W0 = 3
 W1 = 2
 W2 = 1
 NP = 2
 P = 7
 G = 3
 Red = 0
 Fault = "none"
INVARIANTS Covered Right
CHECK_DEADLOCK FALSE
