----------------------------- MODULE ValidTrace -----------------------------
(* Requests for plans and what every rank was told.  A request whose boxes are  *)
(* a distribution each, of worlds that agree, is accepted by all (or declined   *)
(* by all for want of indexes); boxes that are no distribution are an invalid   *)
(* argument on every rank; worlds that disagree are never accepted.             *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, nbad
vars == <<l,nbad>>
Va == INSTANCE Validity WITH X <- 0, Y <- 0, MaxN <- 0, Pairs <- "all", bs <- <<>>, verdict <- "none"
G == INSTANCE Geometry
Init == l = 1 /\ nbad = 0
World(bs) == LET w == Va!Hull(bs) IN <<w[4]+1,w[5]+1,w[6]+1>>
Sound(T) == Va!CoverOnce(T["in"]) /\ Va!CoverOnce(T["out"])
Agree(T) == G!Reduced(World(T["in"]),T.r2c) = World(T["out"])
TooSmall(T) == LET m == G!Active(Len(T["in"]),T.sub) IN ~G!Fits(World(T["in"]),m) \/ ~G!Fits(World(T["out"]),m)
All(T,what) == Len(T.told) = Len(T["in"]) /\ \A i \in 1..Len(T.told) : T.told[i] = what
Refused(T) == T.status = "abort" \/ (T.status = "ok" /\ Len(T.told) = Len(T["in"]) /\ \A i \in 1..Len(T.told) : T.told[i] \in {"invalid","exception","nosplit"})
Judge(T) == IF ~Agree(T) THEN (IF Refused(T) THEN "ok" ELSE "worlds that differ not refused")
            ELSE IF ~Sound(T) THEN (IF T.status = "ok" /\ All(T,"invalid") THEN "ok" ELSE "invalid boxes not refused")
            ELSE IF T.status = "ok" /\ (All(T,"accepted") \/ (TooSmall(T) /\ All(T,"nosplit"))) THEN "ok" ELSE "valid request not accepted"
Next == /\ l <= Len(Recs) /\ l' = l+1
        /\ LET v == Judge(Recs[l]) IN IF v = "ok" THEN UNCHANGED nbad ELSE PrintT(<<"REJECT", Recs[l].id, v, 1>>) /\ nbad' = nbad+1
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
