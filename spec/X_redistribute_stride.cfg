SPECIFICATION Spec
CONSTANTS W0 = 2
 W1 = 3
 W2 = 1
 NP = 2
 Wrong = "stride"
INVARIANTS Never Full
CHECK_DEADLOCK FALSE
