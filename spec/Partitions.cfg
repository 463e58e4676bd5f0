SPECIFICATION Spec
CONSTANTS W0 = 2
 W1 = 2
 W2 = 3
 MaxN = 3
 MinN = 1
 Idle = FALSE
INVARIANTS Covers Emit
CHECK_DEADLOCK FALSE
