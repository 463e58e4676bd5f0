------------------------------ MODULE CallsGen ------------------------------
(* Every combination of direction, buffering, element types and classes of     *)
(* lengths and scalings, for plans of complex and of real data; the driver is   *)
(* given all of them.                                                           *)
EXTENDS Integers, Sequences, TLC, Json
C == INSTANCE Calls
VARIABLE c
T4 == C!Kinds \ {"i4"}
Calls0 == {[r2c |-> r, bk |-> b, buf |-> u, tin |-> ti, tout |-> tj, tws |-> tw, sc |-> 0, din |-> 0, dout |-> 0, dws |-> 0] :
            r \in {0,1}, b \in 0..1, u \in 0..1, ti \in C!Kinds, tj \in C!Kinds, tw \in C!Kinds}
Good == {[r2c |-> r, bk |-> b, buf |-> u, tin |-> IF b = 0 THEN t ELSE C!Spectrum(t), tout |-> IF b = 1 THEN t ELSE C!Spectrum(t), tws |-> C!Spectrum(t), sc |-> s, din |-> 0, dout |-> 0, dws |-> w] :
            r \in {0,1}, b \in 0..1, u \in 0..1, t \in T4, s \in -1..3, w \in {-1,0,2}}
Lens == {[r2c |-> r, bk |-> b, buf |-> u, tin |-> IF b = 0 THEN t ELSE C!Spectrum(t), tout |-> IF b = 1 THEN t ELSE C!Spectrum(t), tws |-> C!Spectrum(t), sc |-> 0, din |-> i, dout |-> j, dws |-> 0] :
            r \in {0,1}, b \in 0..1, u \in 0..1, t \in {"f4","f8"}, i \in -1..1, j \in -1..1}
Redundant(x) == x.buf = 0 /\ (x.tws # "c16" \/ x.dws # 0)
GInit == c \in {x \in Calls0 \cup Good \cup Lens : ~Redundant(x)}
GNext == UNCHANGED c
GSpec == GInit /\ [][GNext]_c
(* the rule is not vacuous: some calls of every kind are accepted, and no accepted call has a wrong length *)
P(x) == [r2c |-> x.r2c = 1, nin |-> 8, nout |-> IF x.r2c = 1 THEN 6 ELSE 8, ws |-> 16]
Q(x) == x @@ [nin |-> (IF x.bk = 0 THEN 8 ELSE P(x).nout) + x.din, nout |-> (IF x.bk = 0 THEN P(x).nout ELSE 8) + x.dout, nws |-> 16 + x.dws]
Sane == C!Accepts(P(c),Q(c)) => c.din = 0 /\ c.dout = 0 /\ c.sc \in 0..2 /\ {c.tin,c.tout} \cap {"i4"} = {} /\ (c.r2c = 1 => {c.tin,c.tout} \in {{"f4","c8"},{"f8","c16"}})
Emit == PrintT(<<"H", ToJson(c)>>)
=============================================================================
