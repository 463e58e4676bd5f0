------------------------------- MODULE FftTrace ------------------------------
(* Validation of recorded runs of the distributed transforms over symbolic    *)
(* data.  Each array element carries (batch item, cell, set of directions     *)
(* already transformed).  The transform is the state machine: the array of    *)
(* every batch item moves, box by box, from one set of transformed directions *)
(* to a larger (forward) or smaller (backward) one.  Applying an engine in    *)
(* directions D to a box is enabled only when the data handed to it is        *)
(* exactly the content of that box, the box is complete in every direction of *)
(* D, none of D was done before (forward) or all of D was (backward), and the *)
(* step moves no more cells than there are (no cell is transformed twice).    *)
EXTENDS Packed, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,     \* record being checked
          k,     \* next event of the record
          moved, \* [<<phase, item, mask, directions>> -> <<cells that made this step, who made it on which box>>]
          nbad   \* rejected records so far
vars == <<l,k,moved,nbad>>

Bit(d) == CASE d = 0 -> 1 [] d = 1 -> 2 [] OTHER -> 4
HasBit(m,d) == (m \div Bit(d)) % 2 = 1
RECURSIVE MaskOf(_,_)
MaskOf(D,i) == IF i = 0 THEN 0 ELSE Bit(D[i]) + MaskOf(D,i-1)
Steps(T) == (1..Len(T.seq)) \X (0..T.batch-1) \X (0..7) \X (1..7)
Start(T) == [x \in {} |-> 0]
Ok(T) == T.status = "ok"
Init == /\ l = 1 /\ k = 1 /\ nbad = 0
        /\ moved = IF Len(Trace) > 0 /\ Ok(Trace[1]) THEN Start(Trace[1]) ELSE <<>>

Stage(T,m) == IF T.r2c # -1 /\ HasBit(m,T.r2c) THEN Reduced(T.n,T.r2c) ELSE T.n
Holds(T,b,v,j,m) ==
  IF IsPacked(T) THEN LET F(i,c) == (j*Vol(T.n) + Id(T.n,c))*8 + m IN PackedIs(b, v, 1, F, 8*Stride(T.n,b[7])) ELSE
  Len(v) = Count(b) /\ \A a \in 1..Len(v) : v[a] = (j*Vol(T.n) + Id(T.n,CellAt(b,a-1)))*8 + m
DistinctDirs(D) == \A i \in 1..Len(D) : \A h \in 1..(i-1) : D[i] # D[h]

(* the engine call e is a step the specification allows *)
First(T,e) == IF IsPacked(T) THEN e.v[1][1] ELSE e.v[1]
Handed(T,e) == IF e.k = 2 /\ e.bk = 1 THEN R2C(e.b,T.r2c) ELSE e.b
Number(T,e) == IF IsPacked(T) THEN Count(Handed(T,e)) ELSE Len(e.v)
Item(T,e) == (First(T,e) \div 8) \div Vol(T.n)
Allowed(T,e) ==
  /\ Len(e.v) > 0 /\ First(T,e) >= 0
  /\ Item(T,e) \in 0..T.batch-1
  /\ e.bk = T.seq[e.p]
  /\ DistinctDirs(e.d)
  /\ LET m == First(T,e) % 8 j == Item(T,e) IN
     IF e.k = 2
     THEN /\ Len(e.d) = 1 /\ e.d[1] = T.r2c
          /\ Spans(e.b, T.n, T.r2c)
          /\ IF e.bk = 0 THEN m = 0 /\ Holds(T,e.b,e.v,j,0)
                         ELSE m = Bit(T.r2c) /\ Holds(T,R2C(e.b,T.r2c),e.v,j,m)
     ELSE /\ \A i \in 1..Len(e.d) : /\ (e.bk = 0) = ~HasBit(m,e.d[i])
                                    /\ Spans(e.b, Stage(T,m), e.d[i])
                                    /\ T.r2c # e.d[i]
          /\ T.r2c # -1 => HasBit(m,T.r2c)
          /\ e.k = 1 => m = (IF e.bk = 0 THEN 0 ELSE MaskOf(e.d,Len(e.d)))
          /\ Holds(T,e.b,e.v,j,m)
StepOf(T,e) == <<e.p, Item(T,e), First(T,e) % 8, MaskOf(e.d,Len(e.d))>>
Before(x) == IF x \in DOMAIN moved THEN moved[x] ELSE <<0,{}>>
Reach(b) == <<b[1],b[2],b[3],b[4],b[5],b[6]>>
After(T,e) == LET x == StepOf(T,e) c == <<Before(x)[1] + Number(T,e), Before(x)[2] \cup {<<e.r,Reach(e.b)>>}>> IN
  [y \in DOMAIN moved \cup {x} |-> IF y = x THEN c ELSE moved[y]]
NotTwice(T,e) == Before(StepOf(T,e))[1] + Number(T,e) <= Vol(Stage(T, First(T,e) % 8))

(* directions of extent one need no engine call *)
Trivial(T,d) == T.n[d+1] = 1
Core(T,m) == (IF HasBit(m,0) /\ ~Trivial(T,0) THEN 1 ELSE 0) + (IF HasBit(m,1) /\ ~Trivial(T,1) THEN 2 ELSE 0) + (IF HasBit(m,2) /\ ~Trivial(T,2) THEN 4 ELSE 0)
Final(T) ==
  \A p \in 1..Len(T.seq) : \A r \in 1..Len(T["in"]) :
    LET b == IF T.seq[p] = 0 THEN T["out"][r] ELSE T["in"][r]
        v == T.fin[p][r]
        w == IF T.seq[p] = 0 THEN 7 ELSE 0
        c == Count(b)
        F(j,x) == (j*Vol(T.n) + Id(T.n,x))*8 + w
    IN IF IsPacked(T) THEN PackedIs(b, v, T.batch, F, 8*Stride(T.n,b[7]))      \* these worlds have no direction of extent one
       ELSE
       /\ Len(v) = c*T.batch
       /\ \A a \in 1..Len(v) : LET j == (a-1) \div c IN
            /\ v[a] >= 0
            /\ v[a] \div 8 = j*Vol(T.n) + Id(T.n,CellAt(b,(a-1)%c))
            /\ Core(T, v[a] % 8) = Core(T,w)
(* With the computation limited to sub ranks, no step is made by more of them, *)
(* unless it is made on the boxes of the user as they are.                     *)
(* With a communicator given, they are its ranks and no others.                *)
Chosen(T) == {T.part[i]+1 : i \in 1..Len(T.part)}
Limited(T) == T.sub > 0 \/ T.part # <<>> => \A x \in DOMAIN moved : LET W == moved[x][2] IN
   \/ IF T.part # <<>> THEN {w[1] : w \in W} \subseteq Chosen(T)
                        ELSE Cardinality({w[1] : w \in W}) <= T.sub
   \/ \A w \in W : \/ w[2] = Reach(T["in"][w[1]]) \/ w[2] = Reach(T["out"][w[1]])
                    \/ /\ T.r2c # -1
                       /\ w[2] = Reach(R2C(T["in"][w[1]],T.r2c))
Flags(T) == T.guards = 0 /\ T.inmod = 0 /\ T.sizes = 0 /\ T.badws = 0

Advance == /\ l' = l+1 /\ k' = 1
           /\ moved' = IF l < Len(Trace) /\ Ok(Trace[l+1]) THEN Start(Trace[l+1]) ELSE <<>>
Reject(why) == /\ PrintT(<<"REJECT", Trace[l].id, why, k>>) /\ nbad' = nbad+1 /\ Advance
Event == /\ l <= Len(Trace) /\ Ok(Trace[l]) /\ k <= Len(Trace[l].ex)
         /\ LET T == Trace[l] e == T.ex[k] IN
            IF Allowed(T,e) /\ NotTwice(T,e) THEN moved' = After(T,e) /\ k' = k+1 /\ UNCHANGED <<l,nbad>>
                            ELSE Reject("engine-input")
Finish == /\ l <= Len(Trace) /\ Ok(Trace[l]) /\ k = Len(Trace[l].ex)+1
          /\ LET T == Trace[l] IN
             IF ~Final(T) THEN Reject("output")
             ELSE IF ~Limited(T) THEN Reject("sub-ranks")
             ELSE IF ~Flags(T) THEN Reject("memory")
             ELSE Advance /\ UNCHANGED nbad
(* declining to split the world is allowed when the world has no suitable grid of boxes *)
TooSmall(T) == LET m == Active(Len(T["in"]),T.sub) IN ~Fits(T.n,m) \/ ~Fits(Reduced(T.n,T.r2c),m)
Declined == l <= Len(Trace) /\ Trace[l].status = "nosplit" /\ (IF TooSmall(Trace[l]) THEN Advance /\ UNCHANGED nbad ELSE Reject("declined"))
Failed == l <= Len(Trace) /\ ~Ok(Trace[l]) /\ Trace[l].status # "nosplit" /\ Reject(Trace[l].status)
Next == Declined \/ Event \/ Finish \/ Failed
Spec == Init /\ [][Next]_vars
Done == l = Len(Trace)+1 => PrintT(<<"DONE", Len(Trace), nbad>>)
=============================================================================
