SPECIFICATION HSpec
CONSTANTS
  Vars = {0,1,2}
  Cfgs = {0,1}
  Ranks = {1}
  MaxTake = 1
INVARIANTS OneOwner NothingLeft
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
