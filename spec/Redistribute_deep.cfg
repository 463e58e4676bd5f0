SPECIFICATION Spec
CONSTANTS W0 = 2
 W1 = 3
 W2 = 2
 NP = 2
 Wrong = "none"
INVARIANTS Never Full
CHECK_DEADLOCK FALSE
