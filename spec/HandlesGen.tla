----------------------------- MODULE HandlesGen ------------------------------
(* Sessions of Handles.tla, written out for the driver.                         *)
EXTENDS Handles, Sequences, TLC, Json
CONSTANTS N
VARIABLE hist
GInit == HInit /\ hist = <<>>
Op(name,a,b) == hist' = Append(hist,<<name,a,b>>)
GNext == /\ Len(hist) < N
         /\ \/ \E v \in Vars, c \in Cfgs : Create(v,c,[r \in Ranks |-> 0]) /\ Op("create",v,c)
            \/ \E v \in Vars, b \in 0..1 : Use(v) /\ Op("transform",v,b)
            \/ \E v \in Vars : Use(v) /\ Op("query",v,0)
            \/ \E d, s \in Vars : ~Dangling(s) /\ (ref[d] # Null \/ ref[s] # Null) /\ Assign(d,s) /\ Op("assign",d,s)
            \/ \E v \in Vars : ref[v] # Null /\ Release(v) /\ Op("release",v,0)
            \/ \E v \in Vars : Len(hist) % 4 = 0 /\ Release(v) /\ ref[v] = Null /\ Op("release",v,0)
            \/ \E v \in Vars : Len(hist) % 3 = 0 /\ Unset(v) /\ Op("unset",v,0)
GSpec == GInit /\ [][GNext]_<<ref,own,plans,made,hist>>
Emit == Len(hist) = N => PrintT(<<"H", ToJson(hist)>>)
=============================================================================
