SPECIFICATION Spec
CONSTANTS N = 3
 Alg = "plined"
 Rounds = 1
 Slots = "own"
 Post1st = TRUE
 Full = "some"
INVARIANTS NothingElse Once Exact Clean
