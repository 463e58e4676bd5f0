------------------------------ MODULE TraceLog ------------------------------
(* The trace of one rank: intervals are opened and closed like brackets, the    *)
(* log holds the closed ones in the order in which they were closed, starting   *)
(* afresh whenever tracing is initialised; finalising copies the log to a file. *)
EXTENDS Integers, Sequences
CONSTANTS Names, MaxT, MaxLog
VARIABLES now, open, log, since, file
tvars == <<now,open,log,since,file>>
TInit == now = 0 /\ open = <<>> /\ log = <<>> /\ since = 0 /\ file = <<>>
Tick == now < MaxT /\ now' = now+1 /\ UNCHANGED <<open,log,since,file>>
Start == open = <<>> /\ log' = <<>> /\ since' = now /\ UNCHANGED <<now,open,file>>
Begin(n) == Len(open) + Len(log) < MaxLog /\ open' = Append(open,[n |-> n, s |-> now]) /\ UNCHANGED <<now,log,since,file>>
End == /\ open # <<>>
       /\ LET e == open[Len(open)] IN log' = Append(log,[n |-> e.n, s |-> e.s, d |-> now - e.s])
       /\ open' = SubSeq(open,1,Len(open)-1)
       /\ UNCHANGED <<now,since,file>>
Final == file' = log /\ UNCHANGED <<now,open,log,since>>
TNext == Tick \/ Start \/ (\E n \in Names : Begin(n)) \/ End \/ Final
TSpec == TInit /\ [][TNext]_tvars
(* what follows for every log, and hence for every file *)
Proper(L,t0,t1) == \A i \in 1..Len(L) : L[i].d >= 0 /\ t0 <= L[i].s /\ L[i].s + L[i].d <= t1
Ordered(L) == \A i \in 1..Len(L)-1 : L[i].s + L[i].d <= L[i+1].s + L[i+1].d
(* an interval closed later was opened after the earlier one ended, or contains it *)
Nested(L) == \A i \in 1..Len(L) : \A j \in 1..(i-1) : L[j].s + L[j].d <= L[i].s \/ L[i].s <= L[j].s
LogOk == Proper(log,since,now) /\ Ordered(log) /\ Nested(log)
FileOk == Ordered(file) /\ Nested(file) /\ Proper(file,0,now)
=============================================================================
