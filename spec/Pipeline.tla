------------------------------ MODULE Pipeline -------------------------------
(* The distributed transform itself: the array of a small world, held box by   *)
(* box in the memories of the ranks, is redistributed and transformed along    *)
(* complete directions in any way a plan may choose.  Numbers are residues of  *)
(* a prime in which the roots of unity exist, so that the discrete transform   *)
(* is exact.  Checked: whatever the distributions, their memory orders and the *)
(* order of the directions, the array is at every moment the transform of the  *)
(* input along the directions done so far - hence the predicates of PlanTrace  *)
(* and FftTrace (cover once, complete directions, each once, ends at the       *)
(* caller's boxes) are enough for the properties of whole transforms - and     *)
(* that they are needed: dropping one of them (Fault) breaks it.               *)
EXTENDS Geometry, TLC
CONSTANTS W0, W1, W2, \* the world
          NP,         \* ranks
          P, G,       \* a prime and a generator of its units
          Red,        \* direction of the real-to-complex reduction, 3: none
          Fault       \* "none", "incomplete", "twice", "overlap"
VARIABLES mem,   \* [rank -> [address -> residue]]
          dist,  \* the boxes of the ranks
          done,  \* directions transformed
          bk,    \* 0 forward, 1 backward
          imp    \* the cell of the impulse the input consists of
vars == <<mem,dist,done,bk,imp>>
World == <<W0,W1,W2>>
RECURSIVE Pow(_,_)
Pow(x,e) == IF e = 0 THEN 1 ELSE (x * Pow(x,e-1)) % P
Root(d) == Pow(G,(P-1) \div World[d+1])
(* the residues of the powers of the root of each direction, both signs *)
Rt == [d \in Dirs |-> [e \in 0..(World[d+1]-1) |-> Pow(Root(d),e)]]
W(d,e) == Rt[d][e % World[d+1]]
(* kernel of the forward transform: the negative exponent *)
Kern(b,d,j,k) == IF b = 0 THEN W(d, (World[d+1] - ((j*k) % World[d+1]))) ELSE W(d,j*k)
Stage == IF Red # 3 /\ Red \in done THEN Reduced(World,Red) ELSE World
StageOf(D) == IF Red # 3 /\ Red \in D THEN Reduced(World,Red) ELSE World

(* distributions: cuts of the world into at most NP boxes given to the ranks in any order *)
Orders == {<<0,1,2>>,<<1,0,2>>,<<2,1,0>>,<<1,2,0>>,<<2,0,1>>,<<0,2,1>>}
RECURSIVE CutsInto(_,_)
Insert(s,p,x) == SubSeq(s,1,p-1) \o <<x>> \o SubSeq(s,p,Len(s))
CutsInto(w,m) == IF m = 1 THEN {<< <<0,0,0,w[1]-1,w[2]-1,w[3]-1,0,1,2>> >>}
  ELSE LET S == CutsInto(w,m-1)
           OneCut(s) == UNION { UNION { { Insert([s EXCEPT ![i] = [@ EXCEPT ![d+4] = c]], p, [s[i] EXCEPT ![d+1] = c+1]) :
                                p \in 1..(Len(s)+1) } : c \in Low(s[i],d)..(High(s[i],d)-1) } : <<i,d>> \in (1..Len(s)) \X Dirs }
           Idle(s) == { Insert(s,p,<<0,0,0,-1,-1,-1,0,1,2>>) : p \in 1..(Len(s)+1) }
       IN UNION { OneCut(s) \cup Idle(s) : s \in S }
Dists(w) == { [i \in 1..NP |-> SubSeq(s[i],1,6) \o o] : s \in CutsInto(w,NP), o \in Orders }
(* enumerated once *)
All == [D \in {{}} \cup (IF Red = 3 THEN {} ELSE {{Red}}) |-> Dists(StageOf(D))]
Places == All[IF Red # 3 /\ Red \in done THEN {Red} ELSE {}]

Fresh(bs,f(_)) == [r \in 1..Len(bs) |-> [a \in 0..(Count(bs[r])-1) |-> f(CellAt(bs[r],a))]]
Owner(bs,c) == CHOOSE r \in 1..Len(bs) : ~Empty(bs[r]) /\ Inside(bs[r],c)
Value(c) == LET r == Owner(dist,c) IN mem[r][Addr(dist[r],c)]
Init == /\ done = {}
        /\ bk \in (IF Red = 3 THEN {0,1} ELSE {0})
        /\ imp \in Cells(WorldBox(World))
        /\ dist \in {d \in Dists(World) : d[1][7] = 0 /\ d[1][8] = 1}
        /\ mem = Fresh(dist, LAMBDA c : IF c = imp THEN 1 ELSE 0)
(* a redistribution *)
Bad(bs) == [bs EXCEPT ![1] = IF Empty(@) \/ Low(@,0) = 0 THEN @ ELSE [@ EXCEPT ![1] = @ - 1]]
Reshape == \E to \in Places :
             LET b == IF Fault = "overlap" THEN Bad(to) ELSE to IN
             /\ mem' = Fresh(to, LAMBDA c : LET x == CHOOSE y \in 1..Len(to) : ~Empty(to[y]) /\ Inside(to[y],c) IN
                                    IF b[x] # to[x] /\ c[1] = Low(to[x],0) THEN Value(<<c[1]-1,c[2],c[3]>>) ELSE Value(c))
             /\ dist' = to /\ UNCHANGED <<done,bk,imp>>
(* a transform of the lines of one direction in the memory of every rank *)
CanRun(d) == /\ d \notin done \/ Fault = "twice"
             /\ Red # 3 => (d = Red \/ Red \in done)
             /\ \A r \in 1..Len(dist) : Empty(dist[r]) \/ Spans(dist[r],Stage,d) \/ Fault = "incomplete"
RECURSIVE Sum(_,_)
Sum(f,hi) == IF hi < 0 THEN 0 ELSE (f[hi] + Sum(f,hi-1)) % P
Short(b,d) == IF Empty(b) \/ d # Red THEN b ELSE [b EXCEPT ![d+4] = Half(World[d+1]) - 1]
Run(d) == /\ CanRun(d)
          /\ dist' = [r \in 1..Len(dist) |-> Short(dist[r],d)]
          /\ mem' = [r \in 1..Len(dist) |->
                 [a \in 0..(Count(dist'[r])-1) |-> LET c == CellAt(dist'[r],a) b == dist[r] IN
                    Sum([j \in 0..(Size(b,d)-1) |->
                         (mem[r][Addr(b,[c EXCEPT ![d+1] = Low(b,d)+j])] * Kern(bk,d,j,c[d+1] - Low(b,d))) % P], Size(b,d)-1)]]
          /\ done' = done \cup {d} /\ UNCHANGED <<bk,imp>>
Next == Reshape \/ \E d \in Dirs : Run(d)
Spec == Init /\ [][Next]_vars

(* the transform along the directions done of the impulse *)
Expect(c) == LET f(d) == IF d \in done THEN Kern(bk,d,imp[d+1],c[d+1]) ELSE (IF imp[d+1] = c[d+1] THEN 1 ELSE 0)
             IN (f(0) * f(1) * f(2)) % P
Covered == Partition(dist,Stage)
Right == \A c \in Cells(WorldBox(Stage)) : Value(c) = Expect(c)
=============================================================================
