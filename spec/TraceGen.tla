------------------------------ MODULE TraceGen ------------------------------
(* Sessions of tracing for the driver: sequences of the user's calls that the   *)
(* specification allows (no session starts while an interval is open).          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Who
VARIABLES hist, depth, started
gvars == <<hist,depth,started>>
GInit == hist = <<>> /\ depth = [w \in Who |-> 0] /\ started = [w \in Who |-> FALSE]
All == -1
Op(o) == hist' = Append(hist,o)
Sel(w) == IF w = All THEN Who ELSE {w}
GNext == Len(hist) < N /\ \E w \in Who \cup {All} :
   \/ /\ \A x \in Sel(w) : depth[x] = 0
      /\ started' = [x \in Who |-> started[x] \/ x \in Sel(w)] /\ UNCHANGED depth /\ \E f \in 0..1 : Op(<<"init",w,f>>)
   \/ /\ depth' = [x \in Who |-> IF x \in Sel(w) THEN depth[x]+1 ELSE depth[x]] /\ UNCHANGED started /\ Op(<<"begin",w,0>>)
   \/ /\ \A x \in Sel(w) : depth[x] > 0
      /\ depth' = [x \in Who |-> IF x \in Sel(w) THEN depth[x]-1 ELSE depth[x]] /\ UNCHANGED started /\ Op(<<"end",w,0>>)
   \/ UNCHANGED <<depth,started>> /\ Op(<<"flood",w,0>>)
   \/ w = All /\ UNCHANGED <<depth,started>> /\ Op(<<"run",0,0>>)
   \/ /\ \A x \in Sel(w) : started[x]
      /\ UNCHANGED <<depth,started>> /\ Op(<<"final",w,0>>)
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) = N => PrintT(<<"H", ToJson(hist)>>)
=============================================================================
