SPECIFICATION Spec
CONSTANTS N = 2
 Alg = "p2p"
 Rounds = 1
 Slots = "one"
 Post1st = FALSE
 Full = "one"
INVARIANTS NothingElse Once Exact Clean
