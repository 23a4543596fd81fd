-------------------------------- MODULE Qed --------------------------------
(***************************************************************************)
(* Creation of photons and pairs in one patch, slot by slot.  Emitters E       *)
(* (electrons) radiate into photon storage P, photons convert into electrons   *)
(* (E again) and positrons Q.  One step, per the main loop:                    *)
(*   Push    every species decides its events: free slots lose their flag      *)
(*   Emit    storage P grows if there are more flags than free slots, then      *)
(*           every live flagged emitter takes the next free slot               *)
(*   Convert likewise for photons into E and Q; afterwards they disappear       *)
(* A slot is [id, dead, ev, val]; a freed slot keeps id, ev and val until it     *)
(* is reused: the new particle must get an identity of its own (FreshIds).       *)
(* Conversions must not see photons created in the same step: their flag must    *)
(* have been cleared while the slot was free (ClearFlags).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxSlots, MaxId, FreshIds, ClearFlags
VARIABLES E, P, Q, n, pc, old, born, gone
vars == <<E, P, Q, n, pc, old, born, gone>>
Live(s) == {i \in DOMAIN s : ~s[i].dead}
Dead(s) == {i \in DOMAIN s : s[i].dead}
Fire(s) == {i \in DOMAIN s : ~s[i].dead /\ s[i].ev}
Ids(s) == {s[i].id : i \in Live(s)}
Flags(s) == {i \in DOMAIN s : s[i].ev}
Slot(i, d, v) == [id |-> i, dead |-> d, ev |-> FALSE, val |-> v]
Max(a, b) == IF a > b THEN a ELSE b
Nth(S, j) == CHOOSE k \in S : Cardinality({m \in S : m <= k}) = j
(* identities, like the containers, are counted per storage; here one counter *)
Extended(s, need, id0) == s \o [k \in 1..Max(0, need - Cardinality(Dead(s))) |-> Slot(id0 + k, TRUE, 0)]
Fill(src, dst, id0) == [i \in DOMAIN dst |->
    LET r == Cardinality({m \in Dead(dst) : m <= i})
    IN IF i \in Dead(dst) /\ r <= Cardinality(Fire(src))
       THEN [dst[i] EXCEPT !.dead = FALSE, !.val = src[Nth(Fire(src), r)].val, !.id = IF FreshIds THEN id0 + r ELSE @]
       ELSE dst[i]]
Init == /\ \E k \in 1..2 : \E d \in [1..k -> BOOLEAN] : E = [i \in 1..k |-> Slot(i, d[i], i)]
        /\ \E k \in 0..1 : P = [i \in 1..k |-> [Slot(10 + i, TRUE, 5) EXCEPT !.ev = TRUE]]
        /\ Q = <<>> /\ n = 20 /\ pc = "push" /\ old = {} /\ born = {} /\ gone = {}
Decide(s, s2) == /\ DOMAIN s2 = DOMAIN s
                 /\ \A i \in DOMAIN s : s2[i] = [s[i] EXCEPT !.ev = s2[i].ev] /\ (s[i].dead => s2[i].ev = (IF ClearFlags THEN FALSE ELSE s[i].ev))
Choices(s) == {s2 \in {[i \in DOMAIN s |-> [s[i] EXCEPT !.ev = f[i]]] : f \in [DOMAIN s -> BOOLEAN]} : Decide(s, s2)}
Push == /\ pc = "push" /\ pc' = "emit"
        /\ E' \in Choices(E) /\ P' \in Choices(P) /\ UNCHANGED <<Q, n>>
        /\ old' = Ids(P) /\ born' = {E'[i].val : i \in Fire(E')} /\ gone' = {P'[i].id : i \in Fire(P')}
Emit == LET P1 == Extended(P, Cardinality(Flags(E)), n)
            n1 == n + Len(P1) - Len(P)
        IN /\ pc = "emit" /\ pc' = "convert" /\ Len(P1) <= MaxSlots
           /\ P' = Fill(E, P1, n1) /\ n' = n1 + Cardinality(Fire(E))
           /\ UNCHANGED <<E, Q, old, born, gone>>
Convert == LET E1 == Extended(E, Cardinality(Flags(P)), n)
               nE == n + Len(E1) - Len(E)
               Q1 == Extended(Q, Cardinality(Flags(P)), nE)
               nQ == nE + Len(Q1) - Len(Q)
               f == Cardinality(Fire(P))
           IN /\ pc = "convert" /\ pc' = "push" /\ Len(E1) <= MaxSlots /\ Len(Q1) <= MaxSlots
              /\ E' = Fill(P, E1, nQ) /\ Q' = Fill(P, Q1, nQ + f) /\ n' = nQ + 2 * f
              /\ P' = [i \in DOMAIN P |-> IF i \in Fire(P) THEN [P[i] EXCEPT !.dead = TRUE] ELSE P[i]]
              /\ UNCHANGED <<old, born, gone>>
(* a live particle leaves; its slot is free and keeps everything else, the particle lives on elsewhere *)
Leave == /\ pc = "push" /\ \E i \in Live(P) : P' = Append([P EXCEPT ![i].dead = TRUE], P[i]) /\ Len(P) < MaxSlots
         /\ UNCHANGED <<E, Q, n, pc, old, born, gone>>
Next == Push \/ Emit \/ Convert \/ Leave
Spec == Init /\ [][Next]_vars
Bound == n <= MaxId
UniqueIds == /\ Cardinality(Ids(E)) = Cardinality(Live(E)) /\ Cardinality(Ids(P)) = Cardinality(Live(P)) /\ Cardinality(Ids(Q)) = Cardinality(Live(Q))
(* exactly one photon per live flagged emitter, nothing else, and all old photons stay *)
EmitsOne == pc = "convert" => /\ {i \in Live(P) : P[i].id \notin old} = {i \in Live(P) : P[i].id \in Ids(P) \ old}
                              /\ Cardinality(Live(P)) = Cardinality(old) + Cardinality(Fire(E))
                              /\ old \subseteq Ids(P)
                              /\ born = {P[i].val : i \in {j \in Live(P) : P[j].id \notin old}}
(* after the step exactly the photons flagged at the push are gone *)
ConvertsOnlyFlagged == [][pc = "convert" /\ pc' = "push" =>
                            /\ {P[i].id : i \in Live(P)} \ {P'[i].id : i \in Live(P')} = gone
                            /\ Cardinality(Live(E')) = Cardinality(Live(E)) + Cardinality(gone)
                            /\ Cardinality(Live(Q')) = Cardinality(Live(Q)) + Cardinality(gone)]_vars
=============================================================================
