----------------------------- MODULE HistoryGen -----------------------------
(* Histories of the plans of History.tla, written out for the driver.          *)
EXTENDS History, Sequences, TLC, Json
CONSTANTS N, Bad, Vec
VARIABLE hist
GInit == HInit /\ hist = <<>>
Op(name,a,b) == hist' = Append(hist,<<name,a,b>>)
GNext == /\ Len(hist) < N
         /\ \/ \E s \in Slots, c \in Cfgs : Create(s,c,Nothing) /\ Op("create",s,c)
            \/ \E s \in Slots : Transform(s) /\ Op("transform",s,0)
            \/ \E s \in Slots : Transform(s) /\ Op("transform",s,1)
            \/ Vec /\ \E s \in Slots, b \in 0..1 : Transform(s) /\ Op("vtransform",s,b)
            \/ Vec /\ \E s \in Slots, b \in 0..1 : Refused(s) /\ Op("short",s,b)
            \/ \E s \in Slots : Query(s) /\ Op("query",s,0)
            \/ \E s \in Slots : slot[s] # None /\ Destroy(s) /\ Op("destroy",s,0)
            \/ \E s, d \in Slots : slot[s] # None /\ Move(s,d) /\ Op("move",s,d)
            \/ \E s, d \in Slots : s < d /\ slot[s] # None /\ slot[d] # None /\ Swap(s,d) /\ Op("swap",s,d)
            \/ \E b \in Bad : FailedCreate /\ Op(b,0,0)
GSpec == GInit /\ [][GNext]_<<slot,own,live,hist>>
Emit == Len(hist) = N => PrintT(<<"H", ToJson(hist)>>)
=============================================================================
