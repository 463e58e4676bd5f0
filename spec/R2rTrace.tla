------------------------------ MODULE R2rTrace -------------------------------
(* Validation of recorded impulse responses of the sine and cosine transforms. *)
EXTENDS R2rResponse, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, nbad
vars == <<l,k,nbad>>
Init == l = 1 /\ k = 1 /\ nbad = 0
Advance == l' = l+1 /\ k' = 1
Reject(why) == PrintT(<<"REJECT", Recs[l].id, why, k>>) /\ nbad' = nbad+1 /\ Advance
Check == /\ l <= Len(Recs) /\ Recs[l].status = "ok" /\ k <= Len(Recs[l].runs)
         /\ LET T == Recs[l] q == T.runs[k] IN
            IF RunOk(T,q) THEN k' = k+1 /\ UNCHANGED <<l,nbad>> ELSE Reject(IF q.bk = 0 THEN "forward" ELSE "backward")
Finish == /\ l <= Len(Recs) /\ Recs[l].status = "ok" /\ k = Len(Recs[l].runs)+1
          /\ LET T == Recs[l] IN
             IF T.lin # 0 THEN Reject("superposition")
             ELSE IF T.guards # 0 \/ T.inmod # 0 \/ T.sizes # 0 THEN Reject("memory")
             ELSE Advance /\ UNCHANGED nbad
TooSmall(T) == ~Fits(T.n,Active(Len(T["in"]),T.sub))
Declined == l <= Len(Recs) /\ Recs[l].status = "nosplit" /\ (IF TooSmall(Recs[l]) THEN Advance /\ UNCHANGED nbad ELSE Reject("declined"))
Failed == l <= Len(Recs) /\ Recs[l].status \notin {"ok","nosplit"} /\ Reject(Recs[l].status)
Next == Declined \/ Check \/ Finish \/ Failed
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
