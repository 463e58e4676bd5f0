SPECIFICATION Spec
CONSTANTS
 X = 1
 Y = 1
 MaxN = 3
 Pairs = "next"
INVARIANTS Decides SameMeaning
CHECK_DEADLOCK FALSE
