SPECIFICATION Spec
CONSTANTS Lengths = {6}
 Mistake = "twiddle"
INVARIANT Fourier
CHECK_DEADLOCK FALSE
