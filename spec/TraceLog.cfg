SPECIFICATION TSpec
CONSTANTS
  Names = {"a"}
  MaxT = 3
  MaxLog = 3
INVARIANTS LogOk FileOk
CHECK_DEADLOCK FALSE
