SPECIFICATION Spec
CONSTANTS N = 3
 Alg = "plined"
 Rounds = 2
 Slots = "own"
 Post1st = TRUE
 Full = "one"
INVARIANTS NothingElse Once Exact Clean
