SPECIFICATION Spec
CONSTANTS N = 3
 Alg = "a2av"
 Rounds = 2
 Slots = "one"
 Post1st = TRUE
 Full = "one"
INVARIANTS NothingElse Once Exact Clean
PROPERTY Terminates
