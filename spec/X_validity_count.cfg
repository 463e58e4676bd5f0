SPECIFICATION Spec
CONSTANTS
 X = 1
 Y = 1
 MaxN = 3
 Pairs = "none"
INVARIANTS Decides SameMeaning
CHECK_DEADLOCK FALSE
