SPECIFICATION Spec
CONSTANTS Lengths = {6}
 Mistake = "order"
INVARIANT Fourier
CHECK_DEADLOCK FALSE
