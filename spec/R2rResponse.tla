---------------------------- MODULE R2rResponse -----------------------------
(* What a sine or cosine transform makes of a single one at cell c.  The        *)
(* response is the product over the directions of weight times sine or cosine;  *)
(* angles are multiples of 2 pi / L, the products are turned into sums so that  *)
(* one table of cosines (in millionths) decides.  Values of backward runs are   *)
(* relative to the inverse of the forward transform.                            *)
EXTENDS Geometry
(* kernel of one direction: length n, element c of the input, element x of the output *)
Period(kind,n) == CASE kind = "cos1" -> 4*(n-1) [] kind = "sin1" -> 4*(n+1) [] OTHER -> 4*n
Sine(kind) == kind \in {"sin","sin1"}
Weight(kind,bk,n,c) == CASE kind = "cos"  /\ bk = 1 -> IF c = 0 THEN 1 ELSE 2
                         [] kind = "sin"  /\ bk = 1 -> IF c = n-1 THEN 1 ELSE 2
                         [] kind = "cos1" -> IF c = 0 \/ c = n-1 THEN 1 ELSE 2
                         [] OTHER -> 2
Turns(kind,bk,c,x) == CASE kind = "cos" -> IF bk = 0 THEN (2*c+1)*x ELSE c*(2*x+1)
                        [] kind = "sin" -> IF bk = 0 THEN (2*c+1)*(x+1) ELSE (c+1)*(2*x+1)
                        [] kind = "cos1" -> 2*c*x
                        [] OTHER -> 2*(c+1)*(x+1)
Angle(T,q,d,x) == LET P == Period(T.kind,T.n[d]) IN
   ((Turns(T.kind,q.bk,q.c[d],x[d]) % P) * (T.L \div P) + (IF Sine(T.kind) THEN 3*(T.L \div 4) ELSE 0)) % T.L
Cos(T,a) == LET p == ((a % T.L) + T.L) % T.L IN T.cos[(IF 2*p <= T.L THEN p ELSE T.L-p)+1]
Expect(T,q,x) == LET a == Angle(T,q,1,x) b == Angle(T,q,2,x) c == Angle(T,q,3,x)
                     w == Weight(T.kind,q.bk,T.n[1],q.c[1])*Weight(T.kind,q.bk,T.n[2],q.c[2])*Weight(T.kind,q.bk,T.n[3],q.c[3])
                 IN (w * (Cos(T,a+b+c) + Cos(T,a+b-c) + Cos(T,a-b+c) + Cos(T,b+c-a))) \div 4
RunOk(T,q) == \A r \in 1..Len(T["in"]) :
   LET b == IF q.bk = 0 THEN T["out"][r] ELSE T["in"][r] v == q.res[r]
   IN Len(v) = Count(b) /\ \A a \in 1..Len(v) : LET e == Expect(T,q,CellAt(b,a-1)) IN e - T.tol <= v[a] /\ v[a] <= e + T.tol
=============================================================================
