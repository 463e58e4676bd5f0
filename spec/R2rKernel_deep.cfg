SPECIFICATION Spec
CONSTANTS MaxLength = 32
 Mistake = "none"
INVARIANTS KernelOk InverseOk
CHECK_DEADLOCK FALSE
