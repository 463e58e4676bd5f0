---------------------------- MODULE Redistribute ----------------------------
(* The address arithmetic of a redistribution.  A sender walks the overlap of  *)
(* its box with the receiver's in its own memory order (plan: offset, sizes,   *)
(* line and plane stride) and writes it to the buffer one element after the    *)
(* other; the receiver, which may keep its box in another order, finds element *)
(* (i,j,k) of the overlap - counted in its own order - in the buffer through   *)
(* the map of the sender's directions to its own.  Checked for all small pairs *)
(* of distributions and all pairs of orders: pieces arriving in any order fill *)
(* every address of every receiver exactly once with the element that belongs  *)
(* there.  Wrong = "map" uses the inverse of the map, Wrong = "stride" the     *)
(* receiver's strides for the buffer: both must fail.                          *)
EXTENDS Geometry, TLC
CONSTANTS W0, W1, W2, NP, Wrong
VARIABLES ins, outs, memo, left
vars == <<ins,outs,memo,left>>
World == <<W0,W1,W2>>
Orders == {<<0,1,2>>,<<1,0,2>>,<<2,1,0>>,<<1,2,0>>,<<2,0,1>>,<<0,2,1>>}
Insert(s,p,x) == SubSeq(s,1,p-1) \o <<x>> \o SubSeq(s,p,Len(s))
RECURSIVE CutsInto(_,_)
CutsInto(w,m) == IF m = 1 THEN {<< <<0,0,0,w[1]-1,w[2]-1,w[3]-1,0,1,2>> >>}
  ELSE UNION { UNION { UNION { { Insert([s EXCEPT ![i] = [@ EXCEPT ![d+4] = c]], p, [s[i] EXCEPT ![d+1] = c+1]) :
                        p \in 1..(Len(s)+1) } : c \in Low(s[i],d)..(High(s[i],d)-1) } : <<i,d>> \in (1..Len(s)) \X Dirs } : s \in CutsInto(w,m-1) }
Cut == CutsInto(World,NP)
Give(s,o) == [i \in 1..Len(s) |-> SubSeq(s[i],1,6) \o o]
OSize(b,i) == Size(b,Ord(b,i))
Overlap(a,b) == Collide(a,b)       \* in the order of the first
(* where the overlap starts in the memory of a box *)
Offset(b,v) == Addr(b,<<Low(v,0),Low(v,1),Low(v,2)>>)
(* what is packed: element number e of the message is at this address of the sender *)
PackAddr(b,v,e) == LET q0 == e % OSize(v,0) q1 == (e \div OSize(v,0)) % OSize(v,1) q2 == e \div (OSize(v,0)*OSize(v,1))
                   IN Offset(b,v) + q0 + q1*OSize(b,0) + q2*OSize(b,0)*OSize(b,1)
(* the receiver: element (k,j,i), fast to slow in its order, of the overlap *)
Map(to,from) == [j \in 0..2 |-> CHOOSE k \in 0..2 : Ord(to,k) = Ord(from,j)]
Inv(f) == [j \in 0..2 |-> CHOOSE k \in 0..2 : f[k] = j]
UnpackFrom(to,from,v,x) == LET m == IF Wrong = "map" THEN Inv(Map(to,from)) ELSE Map(to,from)
                               s0 == IF Wrong = "stride" THEN OSize(v,0) ELSE Size(v,Ord(from,0))
                               s1 == IF Wrong = "stride" THEN OSize(v,1) ELSE Size(v,Ord(from,1))
                           IN x[m[0]+1] + x[m[1]+1]*s0 + x[m[2]+1]*s0*s1
Unpacked(r,s,mem) == LET to == outs[r] from == ins[s] v == Overlap(to,from) sv == Overlap(from,to) IN
   [a \in DOMAIN mem |-> LET c == CellAt(to,a) IN
      IF ~Inside(v,c) THEN mem[a]
      ELSE LET x == <<c[Ord(to,0)+1] - Low(v,Ord(to,0)), c[Ord(to,1)+1] - Low(v,Ord(to,1)), c[Ord(to,2)+1] - Low(v,Ord(to,2))>>
               e == UnpackFrom(to,from,v,x)
           IN IF e >= Count(v) THEN <<-1>> ELSE mem[a] \o <<Id(World,CellAt(from,PackAddr(from,sv,e)))>>]
Pieces == {<<r,s>> \in (1..NP) \X (1..NP) : ~Empty(Overlap(outs[r],ins[s]))}
Init == /\ \E a, b \in Cut : \E p, q \in Orders : ins = Give(a,p) /\ outs = Give(b,q)
        /\ memo = [r \in 1..NP |-> [a \in 0..(Count(outs[r])-1) |-> <<>>]]
        /\ left = Pieces
Arrive == \E z \in left : /\ memo' = [memo EXCEPT ![z[1]] = Unpacked(z[1],z[2],@)] /\ left' = left \ {z} /\ UNCHANGED <<ins,outs>>
Spec == Init /\ [][Arrive]_vars
Never == \A r \in 1..NP : \A a \in DOMAIN memo[r] : memo[r][a] \in {<<>>, <<Id(World,CellAt(outs[r],a))>>}
Full == left = {} => \A r \in 1..NP : \A a \in DOMAIN memo[r] : Len(memo[r][a]) = 1
=============================================================================
