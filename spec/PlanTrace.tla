----------------------------- MODULE PlanTrace ------------------------------
(* Validation of the plans the library makes.  A plan is four pairs of         *)
(* distributions (si[i] -> so[i]) with a transform after each of the first     *)
(* three.  Which distributions are chosen is free; a plan is right when        *)
(* following it is a behaviour of the transform: start at the caller's boxes,  *)
(* every distribution covers the index space of its stage once, a direction is *)
(* transformed only where every rank that holds anything holds it completely,  *)
(* each direction once, the real-to-complex one first, end at the caller's.    *)
EXTENDS Geometry, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, nbad
vars == <<l,nbad>>
Init == l = 1 /\ nbad = 0
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
WorldOf(bs) == [d \in 1..3 |-> 1 + SetMax({bs[i][d+3] : i \in 1..Len(bs)})]
(* covering without volumes, so that extents of billions are no trouble: the   *)
(* lower corners of the elementary cells formed by all cuts lie in one box each *)
Cuts(bs,d) == {0} \cup {bs[i][d] : i \in {j \in 1..Len(bs) : ~Empty(bs[j])}} \cup {bs[i][d+3]+1 : i \in {j \in 1..Len(bs) : ~Empty(bs[j])}}
Owners(bs,c) == {i \in 1..Len(bs) : ~Empty(bs[i]) /\ Inside(bs[i],c)}
CoverOnce(bs,n) == /\ Within(bs,n)
                   /\ \A x \in Cuts(bs,1) \ {n[1]} : \A y \in Cuts(bs,2) \ {n[2]} : \A z \in Cuts(bs,3) \ {n[3]} :
                        Cardinality(Owners(bs,<<x,y,z>>)) = 1
SameBoxes(a,b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameCells(a[i],b[i])
SameLayout(a,b) == SameBoxes(a,b) /\ \A i \in 1..Len(a) : Empty(a[i]) \/ Order(a[i]) = Order(b[i])
Exact(a,b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
WIn(T) == WorldOf(T["in"])
WOut(T) == Reduced(WIn(T),T.r2c)
(* index space of the data before the i-th redistribution ends (so[i]) and when it starts (si[i]) *)
Starts(T) == Exact(T.si[1],T["in"])
Ends(T) == Exact(T.so[4],T["out"])
Covers(T) == /\ CoverOnce(T.so[1],WIn(T)) /\ CoverOnce(T.si[2],WOut(T))
             /\ \A i \in 2..3 : CoverOnce(T.so[i],WOut(T)) /\ CoverOnce(T.si[i+1],WOut(T))
Chained(T) == /\ SameLayout(T.si[3],T.so[2]) /\ SameLayout(T.si[4],T.so[3])
              /\ IF T.r2c = -1 THEN SameLayout(T.si[2],T.so[1])
                 ELSE /\ Len(T.si[2]) = Len(T.so[1])
                      /\ \A i \in 1..Len(T.so[1]) : \/ Empty(T.so[1][i]) /\ Empty(T.si[2][i])
                                                    \/ T.si[2][i] = R2C(T.so[1][i],T.r2c)
OnceEach(T) == {T.dir[1],T.dir[2],T.dir[3]} = {0,1,2} /\ (T.r2c # -1 => T.dir[1] = T.r2c)
Complete(T) == /\ \A i \in 1..3 : LET w == IF i = 1 THEN WIn(T) ELSE WOut(T) IN
                    \A r \in 1..Len(T.so[i]) : Empty(T.so[i][r]) \/ Spans(T.so[i][r],w,T.dir[i])
Orders(T) == /\ \A i \in 1..4 : \A r \in 1..Len(T.so[i]) : IsOrder(Order(T.so[i][r])) /\ IsOrder(Order(T.si[i][r]))
             /\ T.reorder => \A i \in 1..3 : \A r \in 1..Len(T.so[i]) : Empty(T.so[i][r]) \/ T.so[i][r][7] = T.dir[i]
UserBoxes(T,s) == \/ SameBoxes(s,T["in"]) \/ SameBoxes(s,T["out"])
                  \/ T.r2c # -1 /\ SameBoxes(s,[i \in 1..Len(s) |-> R2C(T["in"][i],T.r2c)])
Limited(T) == T.sub > 0 => \A i \in 1..3 : \/ UserBoxes(T,T.so[i])
                                           \/ Cardinality({r \in 1..Len(T.so[i]) : ~Empty(T.so[i][r])}) <= T.sub
Mod(n,p) == ((((n[1] % p) * (n[2] % p)) % p) * (n[3] % p)) % p
Counted(T) == /\ T.cnt = <<Mod(WIn(T),30011),Mod(WIn(T),32003)>> /\ T.len = WIn(T)
(* the number of different intervals of each direction, per stage *)
Shape(T,i) == IF i = 5 THEN T.so[4] ELSE T.si[i]
Grids(T) == Len(T.grids) = 5 /\ \A i \in 1..5 : \A d \in 1..3 :
   T.grids[i][d] = Cardinality({<<Shape(T,i)[r][d],Shape(T,i)[r][d+3]>> : r \in 1..Len(Shape(T,i))} \ {<<0,-1>>})
Why(T) == CASE ~T.agree -> "ranks-disagree" [] ~T.sizes -> "sizes" [] ~Starts(T) -> "start" [] ~Ends(T) -> "end"
            [] ~OnceEach(T) -> "directions" [] ~Covers(T) -> "cover" [] ~Chained(T) -> "chain" [] ~Complete(T) -> "incomplete-lines"
            [] ~Orders(T) -> "order" [] ~Limited(T) -> "sub-ranks" [] ~Counted(T) -> "count" [] ~Grids(T) -> "grids" [] OTHER -> "ok"
TooSmall(T) == LET m == Active(Len(T["in"]),T.sub) IN ~Fits(WIn(T),m) \/ ~Fits(WOut(T),m)
Judge(T) == CASE T.status = "ok" -> Why(T)
              [] T.status = "nosplit" -> IF TooSmall(T) THEN "ok" ELSE "declined"
              [] OTHER -> T.status
Next == /\ l <= Len(Recs) /\ l' = l+1
        /\ LET v == Judge(Recs[l]) IN IF v = "ok" THEN UNCHANGED nbad ELSE PrintT(<<"REJECT", Recs[l].id, v, 1>>) /\ nbad' = nbad+1
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
