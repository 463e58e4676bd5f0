------------------------------- MODULE Handles -------------------------------
(* The variables of the Fortran interface.  A variable refers to a plan or to   *)
(* none, and may own the plan it refers to.  Making a plan gives it to the      *)
(* variable; assigning one variable to another makes the target a second name   *)
(* of the plan, which stays with its owner; a variable that owned a plan and is *)
(* given another, or is released, takes its plan with it.                       *)
EXTENDS Integers, FiniteSets
CONSTANTS Vars, Cfgs, Ranks, MaxTake
Null == 0
VARIABLES ref, own, plans, made       \* plans: what is alive, with its configuration and its communicators
hvars == <<ref,own,plans,made>>
Alive == DOMAIN plans
HInit == ref = [v \in Vars |-> Null] /\ own = [v \in Vars |-> FALSE] /\ plans = [p \in {} |-> 0] /\ made = 0
Without(v) == [p \in Alive \ (IF own[v] THEN {ref[v]} ELSE {}) |-> plans[p]]
Create(v,c,take) == /\ made' = made+1
                    /\ plans' = [p \in DOMAIN Without(v) \union {made+1} |-> IF p = made+1 THEN [cfg |-> c, take |-> take] ELSE plans[p]]
                    /\ ref' = [ref EXCEPT ![v] = made+1] /\ own' = [own EXCEPT ![v] = TRUE]
Assign(d,s) == IF ref[d] = ref[s] THEN UNCHANGED hvars
               ELSE /\ plans' = Without(d) /\ ref' = [ref EXCEPT ![d] = ref[s]] /\ own' = [own EXCEPT ![d] = FALSE] /\ UNCHANGED made
Release(v) == /\ plans' = Without(v) /\ ref' = [ref EXCEPT ![v] = Null] /\ own' = [own EXCEPT ![v] = FALSE] /\ UNCHANGED made
Usable(v) == ref[v] \in Alive
Use(v) == Usable(v) /\ UNCHANGED hvars
Unset(v) == ref[v] = Null /\ UNCHANGED hvars          \* refused, nothing happens
(* a name whose plan is gone may be released or given another plan, nothing else *)
Dangling(v) == ref[v] # Null /\ ~Usable(v)
HNext == \/ \E v \in Vars, c \in Cfgs : \E t \in [Ranks -> 0..MaxTake] : Create(v,c,t)
         \/ \E d, s \in Vars : ~Dangling(s) /\ Assign(d,s)
         \/ \E v \in Vars : Release(v) \/ Use(v) \/ Unset(v)
HSpec == HInit /\ [][HNext]_hvars
Owners(p) == {v \in Vars : ref[v] = p /\ own[v]}
(* a plan lives exactly as long as it has its one owner *)
OneOwner == \A p \in 1..made : Cardinality(Owners(p)) = IF p \in Alive THEN 1 ELSE 0
NothingLeft == (\A v \in Vars : ref[v] = Null) => plans = [p \in {} |-> 0]
RECURSIVE Sum(_,_)
Sum(S,r) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN plans[p].take[r] + Sum(S \ {p},r)
Live(r) == Sum(Alive,r)
Bounded == made <= 4
=============================================================================
