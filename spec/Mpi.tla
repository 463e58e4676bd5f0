-------------------------------- MODULE Mpi ---------------------------------
(* The message layer as the library may rely on it: communicators, posted     *)
(* sends and receives, and collective calls.  What MPI leaves open (when a    *)
(* message moves, whether a send waits for its receive, who runs first) is    *)
(* nondeterministic; what MPI forbids has no enabled action.                   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES comm,   \* [communicator -> [members, held: ranks that have not freed it]]
          req,    \* [request -> [kind, rank, comm, peer, tag, bytes, n, st]], st: posted / moved
          chan,   \* [<<kind, comm, from, to, tag>> -> number of requests posted]
          call    \* [<<comm, number>> -> [name, ins, outs]], pending collective calls
mpi == <<comm,req,chan,call>>

Of(f,x,default) == IF x \in DOMAIN f THEN f[x] ELSE default
Put(f,x,v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f,x) == [y \in DOMAIN f \ {x} |-> f[y]]

MpiInit(ranks) == /\ comm = [c \in {0,1} |-> [members |-> ranks, held |-> ranks]]   \* 0: self, 1: world; never freed
                  /\ req = <<>> /\ chan = <<>> /\ call = <<>>
Member(r,c) == c \in DOMAIN comm /\ r \in comm[c].held
Key(kind,c,r,p,t) == IF kind = "recv" THEN <<"recv",c,p,r,t>> ELSE <<"send",c,r,p,t>>
Post(id,kind,r,c,p,t,b) ==
  /\ Member(r,c) /\ (p \in comm[c].members \/ (kind = "recv" /\ p = -1)) /\ b >= 0 /\ id \notin DOMAIN req
  /\ LET k == Key(kind,c,r,p,t) n == Of(chan,k,0) IN
     /\ req' = Put(req,id,[kind |-> kind, rank |-> r, comm |-> c, peer |-> p, tag |-> t, bytes |-> b, n |-> n, st |-> "posted"])
     /\ chan' = Put(chan,k,n+1)
  /\ UNCHANGED <<comm,call>>
(* messages between two ranks on one communicator and tag do not overtake      *)
Pairs(s,r) == /\ s \in DOMAIN req /\ r \in DOMAIN req
              /\ req[s].kind = "send" /\ req[r].kind = "recv"
              /\ req[s].comm = req[r].comm /\ req[s].tag = req[r].tag
              /\ req[r].rank = req[s].peer
              /\ req[r].peer # -1 => req[s].rank = req[r].peer /\ req[s].n = req[r].n   \* -1: from anyone
(* the library never sends more or less than the receiver expects              *)
Move(s,r) == /\ Pairs(s,r) /\ req[s].st = "posted" /\ req[r].st = "posted"
             /\ req[s].bytes = req[r].bytes
             /\ req' = [req EXCEPT ![s].st = "moved", ![r].st = "moved"]
             /\ UNCHANGED <<comm,chan,call>>
(* a receive completes when its message has moved; a send may complete early,  *)
(* when the layer has buffered the message (st = "sent" until it moves)        *)
RecvDone(id,r) == /\ id \in DOMAIN req /\ req[id].rank = r /\ req[id].kind = "recv" /\ req[id].st = "moved"
                  /\ req' = Drop(req,id) /\ UNCHANGED <<comm,chan,call>>
SendDone(id,r) == /\ id \in DOMAIN req /\ req[id].rank = r /\ req[id].kind = "send" /\ req[id].st \in {"posted","moved"}
                  /\ req' = IF req[id].st = "moved" THEN Drop(req,id) ELSE [req EXCEPT ![id].st = "sent"]
                  /\ UNCHANGED <<comm,chan,call>>
MoveSent(s,r) == /\ Pairs(s,r) /\ req[s].st = "sent" /\ req[r].st = "posted" /\ req[s].bytes = req[r].bytes
                 /\ req' = [x \in DOMAIN req \ {s} |-> IF x = r THEN [req[r] EXCEPT !.st = "moved"] ELSE req[x]]
                 /\ UNCHANGED <<comm,chan,call>>
(* the q-th collective call on a communicator is the same call on all members  *)
Enter(r,c,q,name) == /\ Member(r,c)
                     /\ LET o == Of(call,<<c,q>>,[name |-> name, ins |-> {}, outs |-> {}]) IN
                        /\ o.name = name /\ r \notin o.ins
                        /\ call' = Put(call,<<c,q>>,[o EXCEPT !.ins = @ \cup {r}])
                     /\ UNCHANGED <<comm,req,chan>>
Leave(r,c,q) == /\ <<c,q>> \in DOMAIN call
                /\ LET o == call[<<c,q>>] IN
                   /\ r \in o.ins \ o.outs
                   /\ o.ins = comm[c].members
                   /\ call' = IF o.outs \cup {r} = comm[c].members THEN Drop(call,<<c,q>>)
                              ELSE [call EXCEPT ![<<c,q>>].outs = @ \cup {r}]
                /\ UNCHANGED <<comm,req,chan>>
NewComm(r,c,members) == /\ r \in members
                        /\ c \in DOMAIN comm => comm[c].members = members /\ r \notin comm[c].held
                        /\ comm' = Put(comm,c,[members |-> members, held |-> Of(comm,c,[held |-> {}]).held \cup {r}])
                        /\ UNCHANGED <<req,chan,call>>
(* no communicator is given up while the rank has a message pending on it      *)
FreeComm(r,c) == /\ c > 1 /\ Member(r,c)
                 /\ \A x \in DOMAIN req : ~(req[x].rank = r /\ req[x].comm = c /\ req[x].st # "sent")
                 /\ \A x \in DOMAIN call : x[1] = c => r \notin call[x].ins \ call[x].outs
                 /\ comm' = [comm EXCEPT ![c].held = @ \ {r}]
                 /\ UNCHANGED <<req,chan,call>>
(* nothing is left behind *)
Quiet == /\ DOMAIN req = {} /\ DOMAIN call = {}
         /\ \A c \in DOMAIN comm : c > 1 => comm[c].held = {}
=============================================================================
