SPECIFICATION Spec
CONSTANTS N = 3
 Alg = "a2a"
 Rounds = 2
 Slots = "one"
 Post1st = TRUE
 Full = "some"
INVARIANTS NothingElse Once Exact Clean
