SPECIFICATION Spec
CONSTANTS N = 3
 Alg = "p2p"
 Rounds = 2
 Slots = "one"
 Post1st = TRUE
 Full = "one"
INVARIANTS NothingElse Once Exact Clean
