---------------------------- MODULE HandlesTrace -----------------------------
(* A recorded session of the Fortran interface must be a behaviour of           *)
(* Handles.tla: after every step the communicators alive are those of the plans *)
(* the specification has alive, a transform through a variable gives the        *)
(* response of the plan it refers to, and a variable without a plan is refused. *)
EXTENDS Geometry, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ref, own, plans, made, l, k, nbad
R == 1..12
S == 0..5
H == INSTANCE Handles WITH Vars <- S, Cfgs <- 0..9, Ranks <- R, MaxTake <- 0
Fft == INSTANCE Response
vars == <<ref,own,plans,made,l,k,nbad>>
Init == H!HInit /\ l = 1 /\ k = 1 /\ nbad = 0
Reset == ref' = [v \in S |-> 0] /\ own' = [v \in S |-> FALSE] /\ plans' = [p \in {} |-> 0] /\ made' = 0
Advance == l' = l+1 /\ k' = 1 /\ Reset
Reject(why) == PrintT(<<"REJECT", Recs[l].id, why, k>>) /\ nbad' = nbad+1 /\ Advance
Pad(v) == [r \in R |-> IF r <= Len(v) THEN v[r] ELSE 0]
Gone(v,r) == IF own[v] THEN plans[ref[v]].take[r] ELSE 0
(* what the new plan took, the old one being gone *)
Take(O,v) == [r \in R |-> Pad(O.live)[r] - (H!Live(r) - Gone(v,r))]
LiveIs(O,v) == \A r \in R : Pad(O.live)[r] = H!Live(r) - Gone(v,r)
Same(O) == \A r \in R : Pad(O.live)[r] = H!Live(r)
SizesOk(O,C) == \A i \in 1..Len(C["in"]) : LET z == O.sizes[i] IN z[1] = Count(C["in"][i]) /\ z[2] = Count(C["out"][i]) /\ z[3] >= 0 /\ z[4] >= 0 /\ z[5] \in 99999999..100000001
Fault(T,O) == LET v == O.v[2] IN
   CASE O.op = "unset" -> IF O.ret = 0 \/ O.sz # 0 THEN "variable without plan not refused" ELSE IF Same(O) THEN "ok" ELSE "communicators after refused call"
     [] O.ret # 0 -> "error"
     [] O.op = "create" -> IF \E r \in R : Take(O,v)[r] < 0 THEN "communicators after create" ELSE "ok"
     [] O.op = "transform" -> IF ~Same(O) THEN "communicators after transform" ELSE IF O.guards # 0 \/ O.inmod # 0 THEN "memory"
                              ELSE IF \A i \in 1..Len(O.runs) : Fft!RunOk(T.cfg[plans[ref[v]].cfg+1],O.runs[i]) THEN "ok" ELSE "transform"
     [] O.op = "query" -> IF ~Same(O) THEN "communicators after query" ELSE IF SizesOk(O,T.cfg[plans[ref[v]].cfg+1]) THEN "ok" ELSE "sizes"
     [] O.op = "assign" -> IF ref[v] = ref[O.v[3]] THEN (IF Same(O) THEN "ok" ELSE "communicators after assignment") ELSE IF LiveIs(O,v) THEN "ok" ELSE "communicators after assignment"
     [] OTHER -> IF LiveIs(O,v) THEN "ok" ELSE "communicators after release"
Do(O) == LET v == O.v[2] IN
   CASE O.op = "create" -> H!Create(v,O.v[3],Take(O,v))
     [] O.op \in {"transform","query"} -> H!Use(v)
     [] O.op = "assign" -> ~H!Dangling(O.v[3]) /\ H!Assign(v,O.v[3])
     [] O.op = "release" -> H!Release(v)
     [] OTHER -> H!Unset(v)
Ok == Recs[l].status = "ok"
Step == l <= Len(Recs) /\ Ok /\ k <= Len(Recs[l].ops) /\
        LET T == Recs[l] O == T.ops[k] f == Fault(T,O) IN
        IF f = "ok" THEN Do(O) /\ k' = k+1 /\ UNCHANGED <<l,nbad>> ELSE Reject(f)
Finish == l <= Len(Recs) /\ Ok /\ k = Len(Recs[l].ops)+1 /\
          IF \A i \in 1..Len(Recs[l].fin) : Recs[l].fin[i] = 0 THEN Advance /\ UNCHANGED nbad ELSE Reject("communicators left")
Failed == l <= Len(Recs) /\ ~Ok /\ Reject(Recs[l].status)
Next == Step \/ Finish \/ Failed
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
