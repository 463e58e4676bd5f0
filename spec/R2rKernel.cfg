SPECIFICATION Spec
CONSTANTS MaxLength = 12
 Mistake = "none"
INVARIANTS KernelOk InverseOk
CHECK_DEADLOCK FALSE
