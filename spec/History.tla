------------------------------ MODULE History -------------------------------
(* Plans over their life.  A slot holds a plan or nothing; a plan is made from  *)
(* a configuration and keeps the communicators it created until it is          *)
(* destroyed.  Nothing else may change: a transform leaves every plan and every *)
(* communicator as it was, moving hands over what the plan holds, a creation    *)
(* that fails takes nothing.                                                    *)
EXTENDS Integers
CONSTANTS Slots, Cfgs, Ranks, MaxTake
None == -1
VARIABLES slot, own, live
hvars == <<slot,own,live>>
Nothing == [r \in Ranks |-> 0]
HInit == slot = [s \in Slots |-> None] /\ own = [s \in Slots |-> Nothing] /\ live = Nothing
Minus(f,g) == [r \in Ranks |-> f[r] - g[r]]
Plus(f,g) == [r \in Ranks |-> f[r] + g[r]]
Create(s,c,take) == /\ slot' = [slot EXCEPT ![s] = c]
                    /\ own' = [own EXCEPT ![s] = take]
                    /\ live' = Plus(Minus(live,own[s]),take)
Transform(s) == slot[s] # None /\ UNCHANGED hvars
Query(s) == slot[s] # None /\ UNCHANGED hvars
FailedCreate == UNCHANGED hvars
(* a call refused for its arguments *)
Refused(s) == slot[s] # None /\ UNCHANGED hvars
Move(s,d) == /\ s # d
             /\ slot' = [slot EXCEPT ![d] = slot[s], ![s] = None]
             /\ own' = [own EXCEPT ![d] = own[s], ![s] = Nothing]
             /\ live' = Minus(live,own[d])
Swap(s,d) == /\ slot' = [slot EXCEPT ![d] = slot[s], ![s] = slot[d]]
             /\ own' = [own EXCEPT ![d] = own[s], ![s] = own[d]]
             /\ UNCHANGED live
Destroy(s) == /\ slot' = [slot EXCEPT ![s] = None]
              /\ own' = [own EXCEPT ![s] = Nothing]
              /\ live' = Minus(live,own[s])
HNext == \/ \E s \in Slots, c \in Cfgs : \E take \in [Ranks -> 0..MaxTake] : Create(s,c,take)
         \/ \E s \in Slots : Transform(s) \/ Query(s) \/ Refused(s) \/ Destroy(s)
         \/ \E s, d \in Slots : Move(s,d) \/ Swap(s,d)
         \/ FailedCreate
HSpec == HInit /\ [][HNext]_hvars
(* every live communicator belongs to exactly one live plan; when the last plan *)
(* is gone nothing is left                                                      *)
RECURSIVE SumOwn(_,_)
SumOwn(S,r) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN own[s][r] + SumOwn(S \ {s},r)
Accounted == \A r \in Ranks : live[r] = SumOwn(Slots,r)
EmptyOwnsNothing == \A s \in Slots : slot[s] = None => own[s] = Nothing
NothingLeft == (\A s \in Slots : slot[s] = None) => live = Nothing
=============================================================================
