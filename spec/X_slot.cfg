SPECIFICATION Spec
CONSTANTS N = 3
 Alg = "plined"
 Rounds = 1
 Slots = "one"
 Post1st = TRUE
 Full = "one"
INVARIANTS NothingElse Once Exact Clean
