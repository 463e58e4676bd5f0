----------------------------- MODULE HistTrace ------------------------------
(* A recorded history of plans must be a behaviour of History.tla: every step   *)
(* of the record is matched by a step of the specification, the communicators   *)
(* of every rank are those the specification accounts for, and every transform  *)
(* gives the response of its configuration, whatever went before.               *)
EXTENDS Geometry, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES slot, own, live, l, k, nbad
R == 1..12
H == INSTANCE History WITH Slots <- 0..5, Cfgs <- 0..9, Ranks <- R, MaxTake <- 0
Fft == INSTANCE Response
Rr == INSTANCE R2rResponse
vars == <<slot,own,live,l,k,nbad>>
Fresh == slot = [s \in 0..5 |-> H!None] /\ own = [s \in 0..5 |-> H!Nothing] /\ live = H!Nothing
Init == Fresh /\ l = 1 /\ k = 1 /\ nbad = 0
Reset == slot' = [s \in 0..5 |-> H!None] /\ own' = [s \in 0..5 |-> H!Nothing] /\ live' = H!Nothing
Advance == l' = l+1 /\ k' = 1 /\ Reset
Reject(why) == PrintT(<<"REJECT", Recs[l].id, why, k>>) /\ nbad' = nbad+1 /\ Advance
Pad(v) == [r \in R |-> IF r <= Len(v) THEN v[r] ELSE 0]
Member(T,c,r) == \E i \in 1..Len(T.cfg[c+1].ranks) : T.cfg[c+1].ranks[i] = r-1
Take(O,s) == [r \in R |-> Pad(O.live)[r] - live[r] + own[s][r]]
Resp(C,q) == IF C.kind = "fft" THEN Fft!RunOk(C,q) ELSE Rr!RunOk(C,q)
SizesOk(T,O,C) == \A i \in 1..Len(C["in"]) : LET z == O.sizes[i] IN
   /\ z[1] = Count(C["in"][i]) /\ z[2] = Count(C["out"][i])
   /\ T.capi = 1 => z[4] = z[1] /\ z[5] = z[2] /\ z[6] = z[3] /\ z[7] = 1 /\ z[8] = (IF C.r2c >= 0 THEN 1 ELSE 0)
(* what the C interface fills in, beside what the C++ interface uses *)
DefaultsOk(O) == IF O.v[2] > 2 THEN O.ret # 0
                 ELSE LET z == O.sizes[1] IN O.ret = 0 /\ z[1] = z[5] /\ z[2] = z[6] /\ z[3] = z[7] /\ z[4] \in 0..2
Same(O) == Pad(O.live) = live
(* the error found in a step, or "ok" *)
Fault(T,O) == LET s == O.v[2] c == IF slot[s] = H!None THEN 0 ELSE slot[s] IN
   CASE O.op = "create" -> IF O.ret # 0 THEN "create failed" ELSE IF \E r \in R : Take(O,s)[r] < 0 \/ (Take(O,s)[r] # 0 /\ ~Member(T,O.v[3],r)) THEN "communicators after create" ELSE "ok"
     [] O.op \in {"transform","vtransform"} -> IF ~Same(O) THEN "communicators after transform" ELSE IF O.guards # 0 \/ O.inmod # 0 THEN "memory"
                              ELSE IF \A i \in 1..Len(O.runs) : Resp(T.cfg[c+1],O.runs[i]) THEN "ok" ELSE "transform"
     [] O.op = "query" -> IF ~Same(O) THEN "communicators after query" ELSE IF SizesOk(T,O,T.cfg[c+1]) THEN "ok" ELSE "sizes"
     [] O.op = "move" -> IF Pad(O.live) = H!Minus(live,own[O.v[3]]) THEN "ok" ELSE "communicators after move"
     [] O.op = "destroy" -> IF Pad(O.live) = H!Minus(live,own[s]) THEN "ok" ELSE "communicators after destroy"
     [] O.op = "defaults" -> IF Same(O) /\ DefaultsOk(O) THEN "ok" ELSE "default options"
     [] O.op = "swap" -> IF Same(O) THEN "ok" ELSE "communicators after swap"
     [] O.op = "short" -> IF O.ret = 0 \/ O.sz # 0 THEN "container too small not refused" ELSE IF Same(O) THEN "ok" ELSE "communicators after refused call"
     [] OTHER -> IF O.ret = 0 \/ O.sz # 0 THEN "invalid request accepted" ELSE IF Same(O) THEN "ok" ELSE "communicators after failed create"
Do(O) == LET s == O.v[2] IN
   CASE O.op = "create" -> H!Create(s,O.v[3],Take(O,s))
     [] O.op \in {"transform","vtransform"} -> H!Transform(s)
     [] O.op = "query" -> H!Query(s)
     [] O.op = "move" -> H!Move(s,O.v[3])
     [] O.op = "destroy" -> H!Destroy(s)
     [] O.op = "swap" -> H!Swap(s,O.v[3])
     [] O.op = "short" -> H!Refused(s)
     [] OTHER -> H!FailedCreate
Ok == Recs[l].status = "ok"
Step == l <= Len(Recs) /\ Ok /\ k <= Len(Recs[l].ops) /\
        LET T == Recs[l] O == T.ops[k] f == Fault(T,O) IN
        IF f = "ok" THEN Do(O) /\ k' = k+1 /\ UNCHANGED <<l,nbad>> ELSE Reject(f)
Finish == l <= Len(Recs) /\ Ok /\ k = Len(Recs[l].ops)+1 /\
          IF \A i \in 1..Len(Recs[l].fin) : Recs[l].fin[i] = 0 THEN Advance /\ UNCHANGED nbad ELSE Reject("communicators left")
Failed == l <= Len(Recs) /\ ~Ok /\ Reject(Recs[l].status)
Next == Step \/ Finish \/ Failed
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
