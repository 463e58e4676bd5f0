------------------------------ MODULE TreeTrace ------------------------------
(* The call graph of the built-in engine: the nodes a plan for length n makes.  *)
(* A record holds, for each length, the number of nodes that is set aside, the  *)
(* number of nodes that is filled in, and the nodes <<size, left, right>> (the  *)
(* children as distances).  The graph must be a tree in the set-aside array,    *)
(* whose root has the length and whose nodes split their size.                  *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, nbad
vars == <<l,k,nbad>>
Init == l = 1 /\ k = 1 /\ nbad = 0
Node(T,i) == T.nodes[i]
Leaf(T,i) == Node(T,i)[2] = 0 /\ Node(T,i)[3] = 0
LeftOf(T,i)  == i + Node(T,i)[2]
RightOf(T,i) == i + Node(T,i)[3]
Inside(T,j) == 1 < j /\ j <= Len(T.nodes)
(* products without going beyond 32 bits: sizes are below 2^31 and s = a*b iff b divides s with quotient a *)
Splits(s,a,b) == a > 1 /\ b > 1 /\ s % b = 0 /\ s \div b = a
(* a prime split by Rader's algorithm has one child, for the cyclic convolution; the place where a second one would be is not used *)
Kids(T,i) == IF Leaf(T,i) THEN {} ELSE IF Inside(T,LeftOf(T,i)) /\ Node(T,LeftOf(T,i))[1] = Node(T,i)[1]-1 /\ Node(T,i)[1] % 2 = 1 /\ Node(T,i)[1] > 3
             THEN {LeftOf(T,i)} ELSE {LeftOf(T,i), RightOf(T,i)}
NodeOk(T,i) == LET c == Kids(T,i) IN
    /\ \A j \in c : j > i /\ Inside(T,j)
    /\ Cardinality(c) = 2 => Splits(Node(T,i)[1], Node(T,LeftOf(T,i))[1], Node(T,RightOf(T,i))[1])
TreeOk(T) == /\ T.used <= T.num /\ Len(T.nodes) = T.used /\ T.used >= 1
             /\ Node(T,1)[1] = T.n
             /\ \A i \in 1..T.used : NodeOk(T,i)
             /\ \A j \in 2..T.used : Cardinality({i \in 1..T.used : j \in Kids(T,i)}) = 1
Advance == l' = l+1 /\ k' = 1
Reject(why) == PrintT(<<"REJECT", Recs[l].id, why, k>>) /\ nbad' = nbad+1 /\ Advance
Check == /\ l <= Len(Recs) /\ Recs[l].status = "ok" /\ k <= Len(Recs[l].trees)
         /\ IF TreeOk(Recs[l].trees[k]) THEN k' = k+1 /\ UNCHANGED <<l,nbad>> ELSE Reject("tree")
Finish == /\ l <= Len(Recs) /\ Recs[l].status = "ok" /\ k = Len(Recs[l].trees)+1 /\ Advance /\ UNCHANGED nbad
Failed == l <= Len(Recs) /\ Recs[l].status # "ok" /\ Reject(Recs[l].status)
Next == Check \/ Finish \/ Failed
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
