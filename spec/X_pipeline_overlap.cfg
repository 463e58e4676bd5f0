SPECIFICATION Spec
CONSTANTS W0 = 2
 W1 = 2
 W2 = 1
 NP = 2
 P = 3
 G = 2
 Red = 3
 Fault = "overlap"
INVARIANTS Covered Right
CHECK_DEADLOCK FALSE
