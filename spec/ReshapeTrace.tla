---------------------------- MODULE ReshapeTrace -----------------------------
(* Validation of recorded redistributions.  Application p of a plan moves the *)
(* array of every batch item from the input boxes to the output boxes: a step *)
(* of the specification replaces the contents of all output arrays at once.   *)
EXTENDS Packed, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, nbad
vars == <<l,k,nbad>>
Init == l = 1 /\ k = 1 /\ nbad = 0
(* what application p leaves at address a of rank r; -2: anything (a cell no rank had) *)
Had(T,c) == \E r \in 1..Len(T["in"]) : ~Empty(T["in"][r]) /\ Inside(T["in"][r],c)
Apply(T,p) == \A r \in 1..Len(T["out"]) :
   LET b == T["out"][r] v == T.res[p][r] c == Count(b)
       F(j,x) == ((p-1)*3+j)*Vol(T.n) + Id(T.n,x) IN
   IF IsPacked(T) THEN PackedIs(b, v, T.apps[p], F, Stride(T.n,b[7]))   \* these input boxes cover the world
   ELSE
   /\ Len(v) = c*T.apps[p]
   /\ \A a \in 1..Len(v) : LET x == CellAt(b,(a-1)%c) j == (a-1) \div c IN
        v[a] = ((p-1)*3+j)*Vol(T.n) + Id(T.n,x) \/ ~Had(T,x)
Advance == l' = l+1 /\ k' = 1
Reject(why) == PrintT(<<"REJECT", Recs[l].id, why, k>>) /\ nbad' = nbad+1 /\ Advance
Step == /\ l <= Len(Recs) /\ Recs[l].status = "ok" /\ k <= Len(Recs[l].apps)
        /\ IF Apply(Recs[l],k) THEN k' = k+1 /\ UNCHANGED <<l,nbad>> ELSE Reject("contents")
Finish == /\ l <= Len(Recs) /\ Recs[l].status = "ok" /\ k = Len(Recs[l].apps)+1
          /\ LET T == Recs[l] IN IF T.guards # 0 \/ T.inmod # 0 \/ T.sizes # 0 THEN Reject("memory") ELSE Advance /\ UNCHANGED nbad
Failed == l <= Len(Recs) /\ Recs[l].status # "ok" /\ Reject(Recs[l].status)
Next == Step \/ Finish \/ Failed
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
