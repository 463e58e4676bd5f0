SPECIFICATION Spec
CONSTANTS MaxLength = 3
 Mistake = "even"
INVARIANTS KernelOk InverseOk
CHECK_DEADLOCK FALSE
