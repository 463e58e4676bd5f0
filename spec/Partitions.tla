----------------------------- MODULE Partitions -----------------------------
(* Every way of cutting a world into boxes by successive cuts, with the parts *)
(* given to the ranks in any order; the reachable states are the distributions *)
(* the checks replay on the code.                                              *)
EXTENDS Geometry, TLC, Json, IOUtils
CONSTANTS W0, W1, W2, MaxN, MinN, Idle
VARIABLE boxes
World == <<W0,W1,W2>>
Init == boxes = << <<0,0,0,W0-1,W1-1,W2-1,0,1,2>> >>
Lower(b,d,c) == [b EXCEPT ![d+4] = c]
Upper(b,d,c) == [b EXCEPT ![d+1] = c+1]
Insert(s,p,x) == SubSeq(s,1,p-1) \o <<x>> \o SubSeq(s,p,Len(s))
Cut == /\ Len(boxes) < MaxN
       /\ \E i \in 1..Len(boxes) : ~Empty(boxes[i]) /\ \E d \in Dirs : \E c \in Low(boxes[i],d)..(High(boxes[i],d)-1) :
            \E p \in 1..(Len(boxes)+1) :
              boxes' = Insert([boxes EXCEPT ![i] = Lower(@,d,c)], p, Upper(boxes[i],d,c))
Rest == /\ Idle /\ Len(boxes) < MaxN
        /\ \E p \in 1..(Len(boxes)+1) : boxes' = Insert(boxes, p, <<0,0,0,-1,-1,-1,0,1,2>>)
Next == Cut \/ Rest
Spec == Init /\ [][Next]_boxes
Covers == Partition(boxes,World)
Emit == Len(boxes) >= MinN => PrintT(<<"P", ToJson([i \in 1..Len(boxes) |-> SubSeq(boxes[i],1,6)])>>)
=============================================================================
