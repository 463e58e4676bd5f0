SPECIFICATION Spec
CONSTANTS N = 3
 Alg = "p2p"
 Rounds = 1
 Slots = "one"
 Post1st = TRUE
 Full = "all"
INVARIANTS NothingElse Once Exact Clean
