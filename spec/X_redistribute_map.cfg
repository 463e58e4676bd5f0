SPECIFICATION Spec
CONSTANTS W0 = 1
 W1 = 2
 W2 = 3
 NP = 2
 Wrong = "map"
INVARIANTS Never Full
CHECK_DEADLOCK FALSE
