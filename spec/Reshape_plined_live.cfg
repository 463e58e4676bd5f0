SPECIFICATION Spec
CONSTANTS N = 2
 Alg = "plined"
 Rounds = 3
 Slots = "own"
 Post1st = TRUE
 Full = "all"
INVARIANTS NothingElse Once Exact Clean
PROPERTY Terminates
