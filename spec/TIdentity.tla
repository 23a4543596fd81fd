------------------------------ MODULE TIdentity ------------------------------
(* Recorded identities (property G01).  Each event is a moment of a run, all     *)
(* processes together: per species the live particles [id, who]; who is an         *)
(* independent mark the observer wrote on the particle (it travels with it), 0 for  *)
(* a particle seen for the first time (it is then marked).                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, idOf
vars == <<tr, l, idOf>>
S(e) == DOMAIN e.live
Seen(e, s) == {i \in DOMAIN e.live[s] : e.live[s][i].who # 0}
Clauses(e) ==
    UNION { LET r == e.live[s]
            IN (IF Cardinality({r[i].id : i \in DOMAIN r}) = Len(r) THEN {} ELSE {"species " \o ToString(s) \o ": two live particles carry the same identity"})
               \cup (IF \A i \in Seen(e, s) : r[i].who \in DOMAIN idOf[s] /\ idOf[s][r[i].who] = r[i].id
                     THEN {} ELSE {"species " \o ToString(s) \o ": a living particle changed its identity"})
               \cup (IF Cardinality({r[i].who : i \in Seen(e, s)}) = Cardinality(Seen(e, s)) THEN {} ELSE {"species " \o ToString(s) \o ": a particle exists twice"})
          : s \in S(e) }
(* marks are given out in the order of the rows, counting from 1 per species *)
Known(e, s, old) == LET new == SelectSeq(e.live[s], LAMBDA r : r.who = 0)
                    IN old \o [j \in DOMAIN new |-> new[j].id]
Init == tr \in DOMAIN Traces /\ l = 1 /\ idOf = [s \in 1..Traces[tr].cfg.nspec |-> <<>>]
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l]
               bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ idOf' = TLCEval([s \in 1..Traces[tr].cfg.nspec |-> Known(e, s, idOf[s])])
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
