SPECIFICATION Spec
CONSTANTS
 X = 2
 Y = 1
 MaxN = 3
 Pairs = "all"
INVARIANTS Decides SameMeaning
CHECK_DEADLOCK FALSE
