------------------------------ MODULE Validity ------------------------------
(* When a family of boxes is a distribution of a world, and the test by which  *)
(* the library decides it: enough cells, from zero, no two boxes in collision. *)
(* Boxes are added one by one and the family is submitted at any time.         *)
EXTENDS Geometry
CONSTANTS X, Y, MaxN, Pairs   \* Pairs: "all", or "next" for a test that only compares neighbours, or "none"
VARIABLES bs, verdict
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Hull(f) == [i \in 1..9 |-> IF i <= 3 THEN SMin({f[j][i] : j \in 1..Len(f)}) ELSE IF i <= 6 THEN SMax({f[j][i] : j \in 1..Len(f)}) ELSE i-7]
(* what is meant: every cell of the hull, which starts at zero, is in one box  *)
Means(f) == LET w == Hull(f) IN
            /\ w[1] = 0 /\ w[2] = 0 /\ w[3] = 0
            /\ \A c \in Cells(w) : Cardinality({j \in 1..Len(f) : ~Empty(f[j]) /\ Inside(f[j],c)}) = 1
(* the same by the lower corners of the elementary cells of all cuts, for any extent *)
Cuts(f,d) == {0} \cup UNION {{f[i][d], f[i][d+3]+1} : i \in {j \in 1..Len(f) : ~Empty(f[j])}}
CoverOnce(f) == LET w == Hull(f) IN
            /\ w[1] = 0 /\ w[2] = 0 /\ w[3] = 0
            /\ \A x \in Cuts(f,1) \ {w[4]+1} : \A y \in Cuts(f,2) \ {w[5]+1} : \A z \in Cuts(f,3) \ {w[6]+1} :
                 x <= w[4] /\ y <= w[5] /\ z <= w[6] => Cardinality({j \in 1..Len(f) : ~Empty(f[j]) /\ Inside(f[j],<<x,y,z>>)}) = 1
(* how it is tested *)
Compared == IF Pairs = "all" THEN {<<i,j>> \in (1..MaxN) \X (1..MaxN) : i < j} ELSE IF Pairs = "next" THEN {<<i,i+1>> : i \in 1..MaxN} ELSE {}
Tested(f) == LET w == Hull(f) IN
            /\ SumCount(f,Len(f)) >= Count(w)
            /\ w[1] = 0 /\ w[2] = 0 /\ w[3] = 0
            /\ \A p \in Compared : p[2] <= Len(f) => Empty(Collide(f[p[1]],f[p[2]]))
Boxes == {<<a,b,0,c,d,0,0,1,2>> : a \in 0..X, b \in 0..Y, c \in -1..X, d \in -1..Y}
Init == bs = <<>> /\ verdict = "none"
Add == verdict = "none" /\ Len(bs) < MaxN /\ \E b \in Boxes : bs' = Append(bs,b) /\ UNCHANGED verdict
Submit == verdict = "none" /\ bs # <<>> /\ verdict' = (IF Tested(bs) THEN "accepted" ELSE "refused") /\ UNCHANGED bs
Next == Add \/ Submit
Spec == Init /\ [][Next]_<<bs,verdict>>
(* empty boxes must lie inside the hull of the others, or be the usual one; then the test decides what is meant *)
Proper(f) == \E j \in 1..Len(f) : ~Empty(f[j])
Decides == verdict # "none" /\ Proper(bs) => (verdict = "accepted") = Means(bs)
SameMeaning == bs # <<>> /\ Proper(bs) => Means(bs) = CoverOnce(bs)
=============================================================================
