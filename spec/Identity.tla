------------------------------ MODULE Identity ------------------------------
(* Identities of particles over a whole run.  Particles live in slots of       *)
(* containers (one per patch); a slot keeps its identity while it is free.      *)
(*   Grow    a container gets free slots with identities from its own counter   *)
(*   Load    a free, fresh slot becomes a live particle                          *)
(*   Die     a particle's slot becomes free                                      *)
(*   Migrate a particle moves to a free slot of another container, taking its     *)
(*           identity with it; where it left, the free slot still shows it        *)
(*   Create  a new particle is written into any free slot (Renew: it also gets    *)
(*           an identity of its own from the container's counter)                  *)
(*   Refill  the container is emptied and loaded anew (Restart: counting again     *)
(*           from the start)                                                        *)
(* who numbers the particles ever created (ghost).                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NC, MaxSlots, MaxCount, Renew, Restart
VARIABLES cont, count, idOf
vars == <<cont, count, idOf>>
C == 1..NC
Live(c) == {i \in DOMAIN cont[c] : ~cont[c][i].dead}
Free(c) == {i \in DOMAIN cont[c] : cont[c][i].dead}
Slot(id, dead, who) == [id |-> id, dead |-> dead, who |-> who]
Born == Len(idOf)
Init == cont = [c \in C |-> <<>>] /\ count = [c \in C |-> 0] /\ idOf = <<>>
Grow(c) == /\ Len(cont[c]) < MaxSlots
           /\ cont' = [cont EXCEPT ![c] = Append(@, Slot(<<c, count[c]>>, TRUE, 0))]
           /\ count' = [count EXCEPT ![c] = @ + 1] /\ UNCHANGED idOf
Load(c) == \E i \in Free(c) : /\ cont[c][i].who = 0
           /\ cont' = [cont EXCEPT ![c][i] = Slot(@.id, FALSE, Born + 1)]
           /\ idOf' = Append(idOf, cont[c][i].id) /\ UNCHANGED count
Die(c) == \E i \in Live(c) : cont' = [cont EXCEPT ![c][i].dead = TRUE] /\ UNCHANGED <<count, idOf>>
Migrate(c, d) == /\ c # d
                 /\ \E i \in Live(c) : \E j \in Free(d) :
                      cont' = [cont EXCEPT ![c][i].dead = TRUE, ![d][j] = cont[c][i]]
                 /\ UNCHANGED <<count, idOf>>
Create(c) == \E i \in Free(c) : LET id == IF Renew THEN <<c, count[c]>> ELSE cont[c][i].id
             IN /\ cont' = [cont EXCEPT ![c][i] = Slot(id, FALSE, Born + 1)]
                /\ count' = IF Renew THEN [count EXCEPT ![c] = @ + 1] ELSE count
                /\ idOf' = Append(idOf, id)
Refill(c) == LET k0 == IF Restart THEN 0 ELSE count[c]
             IN /\ cont' = [cont EXCEPT ![c] = <<Slot(<<c, k0>>, FALSE, Born + 1)>>]
                /\ count' = [count EXCEPT ![c] = k0 + 1] /\ idOf' = Append(idOf, <<c, k0>>)
Next == \E c \in C : Grow(c) \/ Load(c) \/ Die(c) \/ Create(c) \/ Refill(c) \/ \E d \in C : Migrate(c, d)
Spec == Init /\ [][Next]_vars
Bound == \A c \in C : count[c] <= MaxCount
Shown == {<<c, i>> : c \in C, i \in 1..MaxSlots} 
AllLive == {p \in Shown : p[2] \in Live(p[1])}
Unique == \A p, q \in AllLive : p # q => cont[p[1]][p[2]].id # cont[q[1]][q[2]].id
Permanent == \A p \in AllLive : LET s == cont[p[1]][p[2]] IN s.id = idOf[s.who]
=============================================================================
