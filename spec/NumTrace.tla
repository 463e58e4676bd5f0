------------------------------- MODULE NumTrace -------------------------------
(* Validation of recorded impulse responses of the transforms.                *)
(* A run feeds one impulse of phase s at cell c (plus its mirror image with    *)
(* the conjugate phase when the spectrum of real data is fed, m = 2) and the   *)
(* record holds, for every rank and address, the value found there as          *)
(* 100000 * (scale class) + (phase in units of 2 pi / L), -1 for anything      *)
(* that is not such a value (real results: the value in millionths).  The specification says which phase each address  *)
(* must hold: the transforms are linear, so their impulse responses are their  *)
(* definition.                                                                 *)
EXTENDS Response, Big, Json, TLC, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, nbad
vars == <<l,k,nbad>>
Init == l = 1 /\ k = 1 /\ nbad = 0

Advance == l' = l+1 /\ k' = 1
Reject(why) == PrintT(<<"REJECT", Recs[l].id, why, k>>) /\ nbad' = nbad+1 /\ Advance
Check == /\ l <= Len(Recs) /\ Recs[l].status = "ok" /\ k <= Len(Recs[l].runs)
         /\ LET T == Recs[l] q == T.runs[k] IN
            IF RunOk(T,q) THEN k' = k+1 /\ UNCHANGED <<l,nbad>> ELSE Reject(IF q.bk = 0 THEN "forward" ELSE "backward")
(* what every rank is told of the scale factors: one over the number of indexes  *)
(* of the (real) world, and one over its square root                            *)
Volume(n) == BMul(Big(n[1]),BMul(Big(n[2]),Big(n[3])))
Scales(T) == LET N == Volume(T.n) IN Len(T.cnt) = Len(T["in"]) /\ \A r \in 1..Len(T.cnt) : T.cnt[r] = <<N,N>>
Finish == /\ l <= Len(Recs) /\ Recs[l].status = "ok" /\ k = Len(Recs[l].runs)+1
          /\ LET T == Recs[l] IN
             IF ~Scales(T) THEN Reject("scale-factor")
             ELSE IF T.lin # 0 THEN Reject("superposition")
             ELSE IF T.guards # 0 \/ T.inmod # 0 \/ T.sizes # 0 THEN Reject("memory")
             ELSE Advance /\ UNCHANGED nbad
(* declining to split the world is allowed when the world has no suitable grid of boxes *)
TooSmall(T) == LET m == Active(Len(T["in"]),T.sub) IN ~Fits(T.n,m) \/ ~Fits(Reduced(T.n,T.r2c),m)
Declined == l <= Len(Recs) /\ Recs[l].status = "nosplit" /\ (IF TooSmall(Recs[l]) THEN Advance /\ UNCHANGED nbad ELSE Reject("declined"))
Failed == l <= Len(Recs) /\ Recs[l].status \notin {"ok","nosplit"} /\ Reject(Recs[l].status)
Next == Declined \/ Check \/ Finish \/ Failed
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
