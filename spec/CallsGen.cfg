SPECIFICATION GSpec
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
