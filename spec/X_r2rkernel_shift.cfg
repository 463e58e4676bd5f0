SPECIFICATION Spec
CONSTANTS MaxLength = 3
 Mistake = "shift"
INVARIANTS KernelOk InverseOk
CHECK_DEADLOCK FALSE
