SPECIFICATION Spec
CONSTANTS Lengths = {17,18,19,20,21,22,23,24,25,27,28,29,30,31,32}
 Mistake = "none"
INVARIANT Fourier
CHECK_DEADLOCK FALSE
