------------------------------- MODULE PyTrace -------------------------------
(* Recorded sessions of the Python interface: plans are made and replaced,      *)
(* transforms asked for with right and wrong arguments.  What a call must have  *)
(* come to is Calls!Accepts, what an accepted one computed is Response!RunOk;   *)
(* the helpers that split a world must give a minimal grid of disjoint boxes.   *)
EXTENDS Response, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
C == INSTANCE Calls
VARIABLES l, k, plan, nbad
vars == <<l,k,plan,nbad>>
None == [dir |-> -2]
Init == l = 1 /\ k = 1 /\ plan = None /\ nbad = 0
Advance == l' = l+1 /\ k' = 1 /\ plan' = None
Reject(why) == PrintT(<<"REJECT", Recs[l].id, why, k>>) /\ nbad' = nbad+1 /\ Advance
Go == k' = k+1 /\ UNCHANGED <<l,nbad>>
T == Recs[l]
Q == T.steps[k]
Ranks == 1..Len(T["in"])
All(x) == \A r \in Ranks : Q.got[r] = x
Running == l <= Len(Recs) /\ T.status = "ok" /\ k <= Len(T.steps)
(* --- plans: an unknown engine or direction, or a world that cannot be split, is refused *)
Engines == {0,1,2}
Right(q) == q.be \in Engines /\ q.dir \in {-1,0,1,2}
TooSmall == LET m == Active(Len(T["in"]),T.sub) IN ~Fits(T.n,m) \/ ~Fits(Reduced(T.n,T.r2c),m)
SizesOk == \A r \in Ranks : Q.size[r][1] = Count(T["in"][r]) /\ Q.size[r][2] = Count(T["out"][r]) /\ Q.size[r][3] >= 0
Create == /\ Running /\ Q.kind = "create"
          /\ IF ~Right(Q) THEN (IF All("refused") THEN plan' = None /\ Go ELSE Reject("wrong request for a plan"))
             ELSE IF All("refused") /\ TooSmall THEN plan' = None /\ Go
             ELSE IF ~All("ok") THEN Reject("plan")
             ELSE IF ~SizesOk THEN Reject("sizes")
             ELSE plan' = [dir |-> Q.dir, ws |-> [r \in Ranks |-> Q.size[r][3]]] /\ Go
(* --- transforms *)
OnRank(r) == LET p == [r2c |-> plan.dir >= 0, nin |-> Count(T["in"][r]), nout |-> Count(T["out"][r]), ws |-> plan.ws[r]]
                 c == [bk |-> Q.bk, sc |-> Q.sc, buf |-> Q.buf, tin |-> Q.tin, tout |-> Q.tout, tws |-> Q.tws, nin |-> Q.size[r][1], nout |-> Q.size[r][2], nws |-> Q.size[r][3]]
             IN C!Accepts(p,c)
Want(r) == IF OnRank(r) THEN "ok" ELSE "refused"
Job == [T EXCEPT !.r2c = plan.dir] @@ [real |-> Q.real, tol |-> IF Q.tout = "f4" THEN T.tolf ELSE T.told]
Call == /\ Running /\ Q.kind = "call"
        /\ IF plan = None THEN (IF All("") THEN Go ELSE Reject("call without a plan"))
           ELSE IF \E r \in Ranks : Q.got[r] # Want(r) THEN Reject(IF \E r \in Ranks : Want(r) = "ok" THEN "call refused or failed" ELSE "wrong call not refused")
           ELSE IF Q.note # 0 THEN Reject("memory")
           ELSE IF All("ok") /\ ~RunOk(Job,Q) THEN Reject("result") ELSE Go
        /\ (k' = k+1 => UNCHANGED plan)
(* --- helpers *)
Surface(n,g) == (n[1]*n[2]*g[3] + n[2]*n[3]*g[1] + n[1]*n[3]*g[2])    \* times the number of ranks, as in the C++ helper
Split == /\ Running /\ Q.kind = "split"
         /\ LET n == Q.c g == Q.grid B == Q.res
                W == {<<x,y,z>> : x \in Q.low[1]..(Q.low[1]+n[1]-1), y \in Q.low[2]..(Q.low[2]+n[2]-1), z \in Q.low[3]..(Q.low[3]+n[3]-1)}
            IN IF Q.got # <<"ok">> THEN Reject("helpers fail")
               ELSE IF g[1]*g[2]*g[3] # Q.np \/ Len(B) # Q.np THEN Reject("grid")
               ELSE IF Q.free = 1 /\ \E x \in 1..Q.np : Q.np % x = 0 /\ \E y \in 1..(Q.np \div x) : (Q.np \div x) % y = 0 /\ Surface(n,<<x,y,Q.np \div (x*y)>>) < Surface(n,g) THEN Reject("grid not minimal")
               ELSE IF \E i \in 1..Len(B) : SubSeq(B[i],7,9) # Q.ord THEN Reject("order of the boxes")
               ELSE IF ~(\A c \in W : Cardinality({i \in 1..Len(B) : Inside(B[i],c)}) = 1) \/ ~(\A i \in 1..Len(B) : Cells(B[i]) \subseteq W) THEN Reject("boxes do not tile the world")
               ELSE Go
         /\ (k' = k+1 => UNCHANGED plan)
Finish == l <= Len(Recs) /\ T.status = "ok" /\ k = Len(T.steps)+1 /\ Advance /\ UNCHANGED nbad
Failed == l <= Len(Recs) /\ T.status # "ok" /\ Reject(T.status)
Next == Create \/ Call \/ Split \/ Finish \/ Failed
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
