SPECIFICATION Spec
CONSTANTS Lengths = {5}
 Mistake = "norm"
INVARIANT Fourier
CHECK_DEADLOCK FALSE
