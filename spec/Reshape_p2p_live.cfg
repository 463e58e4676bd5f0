SPECIFICATION Spec
CONSTANTS N = 2
 Alg = "p2p"
 Rounds = 3
 Slots = "one"
 Post1st = TRUE
 Full = "all"
INVARIANTS NothingElse Once Exact Clean
PROPERTY Terminates
