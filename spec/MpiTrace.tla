------------------------------ MODULE MpiTrace ------------------------------
(* Every recorded sequence of MPI events must be a behaviour of Mpi that ends *)
(* with nothing left over.                                                     *)
EXTENDS Mpi, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, nbad
vars == <<comm,req,chan,call,l,k,nbad>>
Set(s) == {s[i] : i \in 1..Len(s)}
RanksOf(T) == IF "np" \in DOMAIN T THEN 0..(T.np-1) ELSE {}
Fresh(i) == LET R == IF i <= Len(Recs) THEN RanksOf(Recs[i]) ELSE {} IN
            /\ comm' = [c \in {0,1} |-> [members |-> R, held |-> R]]
            /\ req' = <<>> /\ chan' = <<>> /\ call' = <<>>
Init == l = 1 /\ k = 1 /\ nbad = 0 /\ MpiInit(IF Len(Recs) > 0 THEN RanksOf(Recs[1]) ELSE {})
Judged(T) == T.status \in {"ok","nosplit"}
Step(e) == CASE e.k = 1 -> Post(e.i,"recv",e.r,e.c,e.p,e.t,e.b)
             [] e.k \in {2,3} -> Post(e.i,"send",e.r,e.c,e.p,e.t,e.b)
             [] e.k = 4 -> SendDone(e.i,e.r)
             [] e.k = 5 -> RecvDone(e.i,e.r)
             [] e.k = 6 -> Move(e.i,e.j) \/ MoveSent(e.i,e.j)
             [] e.k = 7 -> Enter(e.r,e.c,e.i,e.n)
             [] e.k = 8 -> Leave(e.r,e.c,e.i)
             [] e.k = 9 -> NewComm(e.r,e.c,Set(e.m))
             [] e.k = 10 -> FreeComm(e.r,e.c)
             [] OTHER -> UNCHANGED mpi
Advance == l' = l+1 /\ k' = 1 /\ Fresh(l+1)
Reject(why) == PrintT(<<"REJECT", Recs[l].id, why, k>>) /\ nbad' = nbad+1 /\ Advance
Event == /\ l <= Len(Recs) /\ Judged(Recs[l]) /\ k <= Len(Recs[l].ev)
         /\ Step(Recs[l].ev[k]) /\ k' = k+1 /\ UNCHANGED <<l,nbad>>
Refuse == /\ l <= Len(Recs) /\ Judged(Recs[l]) /\ k <= Len(Recs[l].ev)
          /\ ~ENABLED Step(Recs[l].ev[k]) /\ Reject("mpi-event")
Finish == /\ l <= Len(Recs) /\ Judged(Recs[l]) /\ k = Len(Recs[l].ev)+1
          /\ IF Quiet \/ Recs[l].status = "nosplit" THEN Advance /\ UNCHANGED nbad ELSE Reject("left-over")
Failed == l <= Len(Recs) /\ ~Judged(Recs[l]) /\ Reject(Recs[l].status)
Next == Event \/ Refuse \/ Finish \/ Failed
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
