------------------------------ MODULE ExecTrace ------------------------------
(* Validation of recorded responses of the node-local engines.  An engine is a *)
(* map on the array of one box; t tells which directions it transforms.  Each  *)
(* line (plane, box) along those directions is fed one impulse, at position C  *)
(* and with phase S that depend on the coordinates left alone, so that mixing  *)
(* lines, skipping lines or using the wrong stride shows in some cell.  Values *)
(* are phases in units of 2 pi / L, or millionths where the result is real.    *)
EXTENDS Geometry, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, nbad
vars == <<l,k,nbad>>
Init == l = 1 /\ k = 1 /\ nbad = 0

Trans(T,d) == T.t[d+1] = 1
N(T,d) == Size(T.box,d)
InBox(T)  == T.box
OutBox(T) == IF T.r2c = -1 THEN T.box ELSE R2C(T.box,T.r2c)
Src(T,q) == IF q.bk = 0 THEN InBox(T) ELSE OutBox(T)
Dst(T,q) == IF q.bk = 0 THEN OutBox(T) ELSE InBox(T)
(* x: coordinates relative to the low corner of the box *)
Hash(T,x) == (IF Trans(T,0) THEN 0 ELSE x[1]) + (IF Trans(T,1) THEN 0 ELSE 2*x[2]) + (IF Trans(T,2) THEN 0 ELSE 3*x[3])
At(T,q,x,d) == (q.c[d+1] + q.a*Hash(T,x)) % Size(Src(T,q),d)
SelfConj(T,q,x) == \A d \in Dirs : Trans(T,d) => (2*At(T,q,x,d)) % N(T,d) = 0
RealOnly(T,q,x) == (q.real = 1 /\ q.bk = 0) \/ (T.r2c # -1 /\ q.bk = 1 /\ SelfConj(T,q,x))
Start(T,q,x) == LET s == (q.s + q.b*Hash(T,x)) % T.L IN IF RealOnly(T,q,x) THEN (s % 2)*(T.L \div 2) ELSE s
Turn(T,q,x,d) == IF Trans(T,d) THEN ((At(T,q,x,d) * x[d+1]) % N(T,d)) * (T.L \div N(T,d)) ELSE 0
Dot(T,q,x) == (Turn(T,q,x,0) + Turn(T,q,x,1) + Turn(T,q,x,2)) % T.L
Phase(T,q,x) == IF q.bk = 0 THEN (Start(T,q,x) + T.L - Dot(T,q,x)) % T.L ELSE (Start(T,q,x) + Dot(T,q,x)) % T.L
Cos(T,p) == T.cos[(IF 2*p <= T.L THEN p ELSE T.L - p)+1]
(* a stored half spectrum stands for itself and its mirror image *)
Mirror(T,q,x) == IF T.r2c # -1 /\ ~SelfConj(T,q,x) THEN 2 ELSE 1
Matches(T,q,x,v) == IF q.bk = 1 /\ q.real = 1
                    THEN LET w == Mirror(T,q,x)*Cos(T,Phase(T,q,x)) IN w - T.tol <= v /\ v <= w + T.tol
                    ELSE v = Phase(T,q,x)
(* lines of the one transformed direction d, recorded as runs of evenly         *)
(* changing phases <<place, place, first, step, number>>: one run is a line     *)
(* (a real result is recorded as the phase its value is the cosine of)          *)
LineDir(T) == CHOOSE d \in Dirs : Trans(T,d)
Even(T,q,x,d) == LET s == At(T,q,x,d) * (T.L \div N(T,d)) IN IF q.bk = 0 THEN (T.L - s) % T.L ELSE s % T.L
LinesOk(T,q) == LET b == Dst(T,q) d == LineDir(T) u == (d+1)%3 v == (d+2)%3 m == Size(b,d) IN
   /\ Len(q.res) = Size(b,u)*Size(b,v)
   /\ \A i \in 1..Len(q.res) : LET y == (i-1) % Size(b,u) z == (i-1) \div Size(b,u)
                                     x == [e \in 1..3 |-> IF e = u+1 THEN y ELSE IF e = v+1 THEN z ELSE 0] IN
        /\ q.res[i][1] = y /\ q.res[i][2] = z /\ q.res[i][3] = Start(T,q,x) /\ q.res[i][5] = m
        /\ m = 1 \/ q.res[i][4] = Even(T,q,x,d)
RunOk(T,q) == IF "lp" \in DOMAIN T THEN LinesOk(T,q) ELSE LET b == Dst(T,q) IN
   Len(q.res) = Count(b) /\ \A a \in 1..Len(q.res) : LET p == CellAt(b,a-1) IN Matches(T,q,<<p[1]-b[1],p[2]-b[2],p[3]-b[3]>>,q.res[a])

Advance == l' = l+1 /\ k' = 1
Reject(why) == PrintT(<<"REJECT", Recs[l].id, why, k>>) /\ nbad' = nbad+1 /\ Advance
Check == /\ l <= Len(Recs) /\ Recs[l].status = "ok" /\ k <= Len(Recs[l].runs)
         /\ LET T == Recs[l] q == T.runs[k] IN
            IF T.sizes # 0 THEN Reject("sizes")
            ELSE IF RunOk(T,q) THEN k' = k+1 /\ UNCHANGED <<l,nbad>> ELSE Reject(IF q.bk = 0 THEN "forward" ELSE "backward")
Finish == /\ l <= Len(Recs) /\ Recs[l].status = "ok" /\ k = Len(Recs[l].runs)+1
          /\ LET T == Recs[l] IN
             IF T.lin # 0 THEN Reject("superposition")
             ELSE IF T.guards # 0 \/ T.inmod # 0 THEN Reject("memory")
             ELSE Advance /\ UNCHANGED nbad
Failed == l <= Len(Recs) /\ Recs[l].status # "ok" /\ Reject(Recs[l].status)
Next == Check \/ Finish \/ Failed
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
