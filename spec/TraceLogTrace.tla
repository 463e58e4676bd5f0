--------------------------- MODULE TraceLogTrace ----------------------------
(* Recorded tracing sessions.  Every rank's observations are followed by the    *)
(* state of TraceLog.tla; where the specification would put the exact time the  *)
(* record has the readings of the clock just before and after the call.  The    *)
(* intervals the library adds by itself must lie within the transform that      *)
(* caused them and must be the same ones when the same transform is repeated.   *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, r, i, open, want, since, runs, root, seen, nbad
vars == <<l,r,i,open,want,since,runs,root,seen,nbad>>
TL == INSTANCE TraceLog WITH Names <- {}, MaxT <- 0, MaxLog <- 0, now <- 0, log <- <<>>, file <- <<>>
(* open: scopes opened by the user; want: user intervals closed since the start *)
(* of the session; runs: transforms since then; seen: bag of library intervals  *)
(* of every kind of transform met so far                                        *)
Clear == open' = <<>> /\ want' = <<>> /\ since' = -1 /\ runs' = <<>> /\ root' = "" /\ seen' = <<>>
Init == l = 1 /\ r = 1 /\ i = 1 /\ open = <<>> /\ want = <<>> /\ since = -1 /\ runs = <<>> /\ root = "" /\ seen = <<>> /\ nbad = 0
Advance == l' = l+1 /\ r' = 1 /\ i' = 1 /\ Clear
Reject(why) == PrintT(<<"REJECT", Recs[l].id, why, i>>) /\ nbad' = nbad+1 /\ Advance
Cur == Recs[l].ranks[r][i]
User(L) == SelectSeq(L,LAMBDA e : e.u = 1)
Lib(L) == SelectSeq(L,LAMBDA e : e.u = 0)
UserOk(L) == LET U == User(L) IN Len(U) = Len(want) /\ \A j \in 1..Len(U) :
   U[j].n = want[j].n /\ U[j].c = want[j].c /\ want[j].s0 <= U[j].s /\ U[j].s <= want[j].s1 /\ want[j].e0 <= U[j].s+U[j].d /\ U[j].s+U[j].d <= want[j].e1
(* a user interval contains the transforms that ran while it was open, in the order of the file *)
InRun(e,q) == q.t0 <= e.s /\ e.s + e.d <= q.t1
LibOk(L) == \A j \in 1..Len(L) : L[j].u = 0 => \E q \in 1..Len(runs) : InRun(L[j],runs[q])
Names(L) == {L[j].n : j \in 1..Len(L)}
Bag(L) == [n \in Names(L) |-> Cardinality({j \in 1..Len(L) : L[j].n = n})]
(* the clock may stand still between two transforms: their intervals can then not be told apart by time *)
Clean(q) == /\ q > 1 => runs[q-1].t1 < runs[q].t0
            /\ q < Len(runs) => runs[q].t1 < runs[q+1].t0
Of(L,q) == Bag(SelectSeq(Lib(L),LAMBDA e : InRun(e,runs[q])))
SameWork(L) == \A p, q \in 1..Len(runs) : (Clean(p) /\ Clean(q) /\ runs[p].key = runs[q].key) => Of(L,p) = Of(L,q)
Earlier(L) == \A q \in 1..Len(runs) : \A s \in 1..Len(seen) : (Clean(q) /\ seen[s].key = runs[q].key) => Of(L,q) = seen[s].bag
Learn(L) == seen' = seen \o [q \in 1..Len(runs) |-> IF Clean(q) THEN [key |-> runs[q].key, bag |-> Of(L,q)] ELSE [key |-> -1, bag |-> <<>>]]
Final(O) == LET L == O.lines IN
   IF ~TL!Proper(L,since,O.t1) THEN "times" ELSE IF ~TL!Ordered(L) THEN "order" ELSE IF ~TL!Nested(L) THEN "nesting"
   ELSE IF ~UserOk(L) THEN "intervals of the user" ELSE IF ~LibOk(L) THEN "intervals of the library"
   ELSE IF ~(SameWork(L) /\ Earlier(L)) THEN "intervals of the same transform" ELSE "ok"
Ok == l <= Len(Recs) /\ Recs[l].status = "ok" /\ Recs[l].off = "ok"
InRank == Ok /\ r <= Recs[l].nw
Here == InRank /\ i <= Len(Recs[l].ranks[r])
Same == UNCHANGED <<l,r,nbad>>
Start == Here /\ Cur.op = "init" /\ i' = i+1 /\ want' = <<>> /\ since' = Cur.t0 /\ runs' = <<>> /\ root' = Cur.name /\ UNCHANGED <<open,seen>> /\ Same
Begin == Here /\ Cur.op = "begin" /\ i' = i+1 /\ open' = Append(open,[n |-> Cur.name, s0 |-> Cur.t0, s1 |-> Cur.t1]) /\ UNCHANGED <<want,since,runs,root,seen>> /\ Same
End == Here /\ Cur.op = "end" /\ i' = i+1 /\ LET e == open[Len(open)] IN
       want' = Append(want,[n |-> e.n, s0 |-> e.s0, s1 |-> e.s1, e0 |-> Cur.t0, e1 |-> Cur.t1, c |-> 1]) /\ open' = SubSeq(open,1,Len(open)-1) /\ UNCHANGED <<since,runs,root,seen>> /\ Same
(* many intervals that follow each other: the record has them as one with their number *)
Flood == Here /\ Cur.op = "flood" /\ i' = i+1 /\ want' = (IF Cur.key = 0 THEN want ELSE Append(want,[n |-> Cur.name, s0 |-> Cur.t0, s1 |-> Cur.t1, e0 |-> Cur.t0, e1 |-> Cur.t1, c |-> Cur.key])) /\ UNCHANGED <<open,since,runs,root,seen>> /\ Same
Run == Here /\ Cur.op = "run" /\ i' = i+1 /\ runs' = Append(runs,[t0 |-> Cur.t0, t1 |-> Cur.t1, key |-> Cur.key]) /\ UNCHANGED <<open,want,since,root,seen>> /\ Same
Close == Here /\ Cur.op = "final" /\ LET f == Final(Cur) IN
         IF f = "ok" THEN i' = i+1 /\ Learn(Cur.lines) /\ UNCHANGED <<open,want,since,runs,root>> /\ Same ELSE Reject(f)
NextRank == InRank /\ i = Len(Recs[l].ranks[r])+1 /\ r' = r+1 /\ i' = 1 /\ Clear /\ UNCHANGED <<l,nbad>>
(* one file for every rank and root name with which it finalised, and no other *)
RECURSIVE RootAt(_,_)
RootAt(S,j) == IF j = 0 THEN "" ELSE IF S[j].op = "init" THEN S[j].name ELSE RootAt(S,j-1)
Expected(T) == UNION {{RootAt(T.ranks[q],j) \o "_" \o ToString(q-1) \o ".log" : j \in {x \in 1..Len(T.ranks[q]) : T.ranks[q][x].op = "final"}} : q \in 1..T.nw}
Finish == Ok /\ r = Recs[l].nw+1 /\ LET T == Recs[l] IN
          IF {T.files[j] : j \in 1..Len(T.files)} # Expected(T) THEN Reject("files")
          ELSE IF T.digest # T.offdigest THEN Reject("results differ without tracing")
          ELSE IF T.events # T.offevents \/ T.nev # T.offnev THEN Reject("communication differs without tracing")
          ELSE Advance /\ UNCHANGED nbad
Failed == l <= Len(Recs) /\ (Recs[l].status # "ok" \/ Recs[l].off # "ok") /\ Reject(Recs[l].status)
Next == Start \/ Begin \/ End \/ Flood \/ Run \/ Close \/ NextRank \/ Finish \/ Failed
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
