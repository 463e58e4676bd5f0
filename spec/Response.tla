------------------------------ MODULE Response ------------------------------
(* What a transform makes of a single impulse of phase s at cell c.  The        *)
(* transforms are linear, so their impulse responses are their definition.      *)
(* T describes the transform (n: extents, L: phases are in units of 2 pi / L,   *)
(* real: real data, in/out: boxes of the ranks), q the run (bk: backward, sc:   *)
(* scale class asked for, res: values found per rank and address).              *)
EXTENDS Packed
Dot(T,c,x) == LET t(i) == ((c[i] * (x[i] % T.n[i])) % T.n[i]) * (T.L \div T.n[i]) IN (t(1) + t(2) + t(3)) % T.L
Fold(T,p) == IF 2*p <= T.L THEN p ELSE T.L - p
Phase(T,q,x) == IF q.bk = 0 THEN (q.s + T.L - Dot(T,q.c,x)) % T.L ELSE (q.s + Dot(T,q.c,x)) % T.L
(* real results: the cosine of the phase, in millionths, within the precision *)
Matches(T,q,x,v) == IF q.bk = 1 /\ T.real = 1
                    THEN LET w == T.cos[Fold(T,Phase(T,q,x))+1] IN w - T.tol <= v /\ v <= w + T.tol
                    ELSE v = 100000*q.sc + Phase(T,q,x)
(* packed: phases along the lines of the box; a real result is recorded as the   *)
(* phase its value is the cosine of                                             *)
Turn(T,q,d) == LET t == (q.c[d+1] * (T.L \div T.n[d+1])) % T.L IN IF q.bk = 0 THEN (T.L - t) % T.L ELSE t
(* a wave: everything comes together in one cell (real data: and its mirror image) *)
Mirror(T,c) == [i \in 1..3 |-> (T.n[i] - c[i]) % T.n[i]]
Peaks(T,q) == {<<q.c,q.s>>} \cup (IF q.bk = 0 /\ T.real = 1 THEN {<<Mirror(T,q.c), (T.L - q.s) % T.L>>} ELSE {})
IsWave(q) == "w" \in DOMAIN q /\ q.w = 1
RunOk(T,q) == \A r \in 1..Len(T["in"]) :
   LET b == IF q.bk = 0 THEN T["out"][r] ELSE T["in"][r]
       v == q.res[r]
       F(j,x) == (IF q.bk = 1 /\ T.real = 1 THEN 0 ELSE 100000*q.sc) + Phase(T,q,x)
   IN IF IsWave(q) THEN LET E == {<<Addr(b,p[1]), 100000*q.sc + p[2]>> : p \in {x \in Peaks(T,q) : ~Empty(b) /\ Inside(b,x[1])}}
                        IN Len(v) = Cardinality(E) /\ {<<v[i][1],v[i][2]>> : i \in 1..Len(v)} = E
      ELSE IF IsPacked(T) THEN PackedIs(b, v, 1, F, Turn(T,q,b[7]))
      ELSE Len(v) = Count(b) /\ \A a \in 1..Len(v) : Matches(T,q,CellAt(b,a-1),v[a])

=============================================================================
