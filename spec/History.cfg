SPECIFICATION HSpec
CONSTANTS
  Slots = {0,1,2}
  Cfgs = {0,1}
  Ranks = {1,2}
  MaxTake = 2
INVARIANTS Accounted EmptyOwnsNothing NothingLeft
CHECK_DEADLOCK FALSE
