------------------------------ MODULE Reshape -------------------------------
(* One redistribution as the library performs it, rank by rank, on top of the *)
(* message layer Mpi, repeated Rounds times by the same plan (the second time  *)
(* a fast rank may already send while a slow one still receives).              *)
(* The overlap relation says which rank holds something another one needs; all *)
(* relations on the ranks are initial states.  A piece <<i,j,n>> is what rank  *)
(* i owes rank j in round n.                                                   *)
EXTENDS Mpi
CONSTANTS N,        \* number of ranks
          Alg,      \* "p2p", "plined", "a2a", "a2av"
          Rounds,
          Slots,    \* "one": a single send buffer, "own": a region per message
          Post1st,  \* receives are posted before anything is sent
          Full      \* which overlap relations: "one", "some", "all"
R == 0..N-1
VARIABLES owes,   \* set of <<i,j>>: rank i holds something rank j needs
          pc,     \* where the rank is
          rnd,    \* which round the rank is in
          todo,   \* peers still to be dealt with in the present phase
          buf,    \* [rank -> [slot -> piece]]: what the send buffers hold
          slot,   \* [send request -> slot], for sends whose data is still in the buffer
          kept,   \* [send request -> piece], for sends the layer has copied
          copies, \* send requests the layer has decided to copy (the others wait for their receive)
          inbox,  \* [receive request -> piece]
          got     \* [rank -> sequence of the pieces unpacked]
all == <<comm,req,chan,call,owes,pc,rnd,todo,buf,slot,kept,copies,inbox,got>>
proto == <<owes,pc,rnd,todo,buf,slot,kept,copies,inbox,got>>

From(r) == {i \in R : <<i,r>> \in owes}
To(r) == {j \in R : <<r,j>> \in owes}
Size(i,j) == 100*(i+1) + 10*(j+1) + 1
RQ(r,i,n) == <<"r",r,i,n>>
SQ(r,j,n) == <<"s",r,j,n>>
(* ranks that exchange anything, directly or not, share a group *)
Step1(S) == S \cup {i \in R : \E j \in S : <<i,j>> \in owes \/ <<j,i>> \in owes}
RECURSIVE Close(_,_)
Close(S,n) == IF n = 0 THEN S ELSE Close(Step1(S),n-1)
Group(r) == Close({r},N)
Busy(r) == From(r) # {} \/ To(r) # {}
GroupComm(r) == 10 + CHOOSE m \in Group(r) : \A x \in Group(r) : m <= x
P2P == Alg \in {"p2p","plined"}
OffDiag == {p \in R \X R : p[1] # p[2]}
Own == {p \in R \X R : p[1] = p[2]}
Relations == CASE Full = "one" -> {R \X R}
               [] Full = "some" -> {s \cup d : s \in SUBSET OffDiag, d \in {{},Own}}   \* keeping one's own part is local
               [] OTHER -> SUBSET (R \X R)
Init == /\ owes \in Relations
        /\ comm = [c \in {0,1} \cup (IF P2P THEN {} ELSE {GroupComm(r) : r \in {x \in R : Busy(x)}}) |->
                     IF c < 2 THEN [members |-> R, held |-> R] ELSE [members |-> Group(c-10), held |-> Group(c-10)]]
        /\ req = <<>> /\ chan = <<>> /\ call = <<>>
        /\ pc = [r \in R |-> IF Busy(r) THEN "start" ELSE "out"] /\ rnd = [r \in R |-> 1]
        /\ todo = [r \in R |-> {}]
        /\ buf = [r \in R |-> <<>>] /\ slot = <<>> /\ kept = <<>> /\ copies = {} /\ inbox = <<>> /\ got = [r \in R |-> <<>>]
(* --- point to point --- *)
Start(r) == /\ P2P /\ pc[r] = "start"
            /\ pc' = [pc EXCEPT ![r] = IF Post1st THEN "recv" ELSE "send"]
            /\ todo' = [todo EXCEPT ![r] = IF Post1st THEN From(r) \ {r} ELSE To(r) \ {r}]
            /\ UNCHANGED <<mpi,owes,rnd,buf,slot,kept,copies,inbox,got>>
PostRecv(r) == /\ pc[r] = "recv" /\ todo[r] # {}
               /\ LET i == CHOOSE x \in todo[r] : TRUE IN
                  /\ Post(RQ(r,i,rnd[r]),"recv",r,1,i,0,Size(i,r)) /\ todo' = [todo EXCEPT ![r] = @ \ {i}]
               /\ UNCHANGED <<owes,pc,rnd,buf,slot,kept,copies,inbox,got>>
RecvPosted(r) == /\ pc[r] = "recv" /\ todo[r] = {}
                 /\ pc' = [pc EXCEPT ![r] = IF Post1st THEN "send" ELSE "wait"]
                 /\ todo' = [todo EXCEPT ![r] = IF Post1st THEN To(r) \ {r} ELSE From(r) \ {r}]
                 /\ UNCHANGED <<mpi,owes,rnd,buf,slot,kept,copies,inbox,got>>
SlotOf(j) == IF Slots = "one" THEN 0 ELSE j
(* packing into the buffer and handing it to the layer *)
PackSend(r) == /\ pc[r] = "send" /\ todo[r] # {}
               /\ LET j == CHOOSE x \in todo[r] : TRUE q == SQ(r,j,rnd[r]) IN
                  /\ Post(q,"send",r,1,j,0,Size(r,j))
                  /\ buf' = [buf EXCEPT ![r] = Put(@,SlotOf(j),<<r,j,rnd[r]>>)]
                  /\ slot' = Put(slot,q,SlotOf(j))
                  /\ copies' \in (IF Alg = "p2p" THEN {copies, copies \cup {q}} ELSE {copies})
                  /\ todo' = [todo EXCEPT ![r] = @ \ {j}]
               /\ pc' = [pc EXCEPT ![r] = IF Alg = "p2p" THEN "sending" ELSE "send"]
               /\ UNCHANGED <<owes,rnd,kept,inbox,got>>
Last(r) == CHOOSE q \in DOMAIN req : req[q].kind = "send" /\ req[q].rank = r /\ req[q].st \in {"posted","moved"}
(* a blocking send returns when the message has moved, or when the layer has   *)
(* taken a copy                                                                *)
SendReturns(r) == /\ pc[r] = "sending"
                  /\ LET q == Last(r) IN
                     /\ req[q].st = "moved" \/ q \in copies
                     /\ SendDone(q,r) /\ copies' = copies \ {q}
                     /\ slot' = Drop(slot,q)
                     /\ kept' = IF req[q].st = "posted" THEN Put(kept,q,buf[r][slot[q]]) ELSE kept
                  /\ pc' = [pc EXCEPT ![r] = "send"]
                  /\ UNCHANGED <<owes,rnd,todo,buf,inbox,got>>
SelfCopy(r) == /\ pc[r] = "send" /\ todo[r] = {}
               /\ got' = IF r \in To(r) THEN [got EXCEPT ![r] = Append(@,<<r,r,rnd[r]>>)] ELSE got
               /\ pc' = [pc EXCEPT ![r] = IF Post1st THEN "wait" ELSE "recv"] /\ todo' = [todo EXCEPT ![r] = From(r) \ {r}]
               /\ UNCHANGED <<mpi,owes,rnd,buf,slot,kept,copies,inbox>>
(* any of the receives that have completed is unpacked next *)
WaitAny(r) == /\ pc[r] = "wait"
              /\ \E i \in todo[r] : LET q == RQ(r,i,rnd[r]) IN
                 /\ RecvDone(q,r) /\ got' = [got EXCEPT ![r] = Append(@,inbox[q])] /\ inbox' = Drop(inbox,q)
                 /\ todo' = [todo EXCEPT ![r] = @ \ {i}]
              /\ UNCHANGED <<owes,pc,rnd,buf,slot,kept,copies>>
Received(r) == /\ pc[r] = "wait" /\ todo[r] = {}
               /\ pc' = [pc EXCEPT ![r] = IF Alg = "plined" THEN "waitall" ELSE "round"]
               /\ todo' = [todo EXCEPT ![r] = IF Alg = "plined" THEN To(r) \ {r} ELSE {}]
               /\ UNCHANGED <<mpi,owes,rnd,buf,slot,kept,copies,inbox,got>>
WaitAll(r) == /\ pc[r] = "waitall" /\ todo[r] # {}
              /\ \E j \in todo[r] : LET q == SQ(r,j,rnd[r]) IN
                 /\ req[q].st = "moved" /\ SendDone(q,r) /\ slot' = Drop(slot,q) /\ todo' = [todo EXCEPT ![r] = @ \ {j}]
              /\ UNCHANGED <<owes,pc,rnd,buf,kept,copies,inbox,got>>
AllSent(r) == /\ pc[r] = "waitall" /\ todo[r] = {} /\ pc' = [pc EXCEPT ![r] = "round"]
              /\ UNCHANGED <<mpi,owes,rnd,todo,buf,slot,kept,copies,inbox,got>>
(* --- collective --- *)
EnterColl(r) == /\ ~P2P /\ pc[r] = "start" /\ Enter(r,GroupComm(r),rnd[r],Alg) /\ pc' = [pc EXCEPT ![r] = "coll"]
                /\ UNCHANGED <<owes,rnd,todo,buf,slot,kept,copies,inbox,got>>
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] <= z[1] IN <<x>> \o Seqs(S \ {x})
LeaveColl(r) == /\ pc[r] = "coll" /\ Leave(r,GroupComm(r),rnd[r])
                /\ got' = [got EXCEPT ![r] = @ \o Seqs({<<i,r,rnd[r]>> : i \in From(r)})]
                /\ pc' = [pc EXCEPT ![r] = "round"]
                /\ UNCHANGED <<owes,rnd,todo,buf,slot,kept,copies,inbox>>
(* --- both --- *)
NextRound(r) == /\ pc[r] = "round"
                /\ IF rnd[r] < Rounds THEN pc' = [pc EXCEPT ![r] = "start"] /\ rnd' = [rnd EXCEPT ![r] = @+1]
                                      ELSE pc' = [pc EXCEPT ![r] = "out"] /\ UNCHANGED rnd
                /\ UNCHANGED <<mpi,owes,todo,buf,slot,kept,copies,inbox,got>>
Layer == \E s, q \in DOMAIN req :
           \/ /\ Move(s,q) /\ inbox' = Put(inbox,q,buf[req[s].rank][slot[s]])
              /\ UNCHANGED <<owes,pc,rnd,todo,buf,slot,kept,copies,got>>
           \/ /\ MoveSent(s,q) /\ inbox' = Put(inbox,q,kept[s]) /\ kept' = Drop(kept,s)
              /\ UNCHANGED <<owes,pc,rnd,todo,buf,slot,copies,got>>
Rank(r) == \/ Start(r) \/ PostRecv(r) \/ RecvPosted(r) \/ PackSend(r) \/ SendReturns(r) \/ SelfCopy(r) \/ WaitAny(r)
           \/ Received(r) \/ WaitAll(r) \/ AllSent(r) \/ EnterColl(r) \/ LeaveColl(r) \/ NextRound(r)
Finished == \A r \in R : pc[r] = "out"
Next == (\E r \in R : Rank(r)) \/ Layer \/ (Finished /\ UNCHANGED all)
Spec == Init /\ [][Next]_all /\ WF_all(Layer) /\ \A r \in R : WF_all(Rank(r))

(* every piece arrives where it belongs, once, and in the round it was sent for *)
NothingElse == \A r \in R : \A k \in 1..Len(got[r]) : got[r][k][2] = r /\ <<got[r][k][1],r>> \in owes /\ got[r][k][3] <= rnd[r]
Once == \A r \in R : \A k, h \in 1..Len(got[r]) : got[r][k] = got[r][h] => k = h
Exact == \A r \in R : pc[r] = "round" => {got[r][k] : k \in 1..Len(got[r])} = {<<i,r,n>> : i \in From(r), n \in 1..rnd[r]}
Clean == Finished => DOMAIN req = {}
Terminates == <>Finished
=============================================================================
