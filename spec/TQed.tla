-------------------------------- MODULE TQed --------------------------------
(* Creation steps of the real code (properties J01, J02).  Per step, the live    *)
(* particles of every species before creation and after it:                      *)
(*   [patch, x, y, (z), w, ux, uy, uz, id, ev, d, g]                             *)
(* positions and weights are interned (equal number = equal value); u in units   *)
(* of 1/8; ev event flag at the decision; d energy fraction in eighths;           *)
(* g = inverse gamma^2 * (mass + u^2) * 2^20 after the step (1/gamma consistent).   *)
(* cfg.links: [species, kind "emit"|"pair", targets...] for each process enabled.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Sp(e) == DOMAIN e.before
Links == Traces[tr].cfg.links
(* what a row says, without flags: place, w, u, id *)
Core(r) == r.k
U(r) == r.u
Of(e, kind, s) == {j \in DOMAIN Links : Links[j].kind = kind /\ Links[j].sp = s}
Emits(e, s) == Of(e, "emit", s) # {}
Pairs(e, s) == Of(e, "pair", s) # {}
Scale(u, m) == [a \in 1..3 |-> (u[a] * m) \div 8]
(* rows expected of what was there before, with identity *)
Kept(e, s) == {[k |-> r.k, u |-> IF Emits(e, s) /\ r.ev = 1 THEN Scale(r.u, 8 - r.d) ELSE r.u, id |-> r.id] :
                 r \in {e.before[s][i] : i \in {j \in DOMAIN e.before[s] : ~(Pairs(e, s) /\ e.before[s][j].ev = 1)}}}
Now(e, s) == {[k |-> r.k, u |-> r.u, id |-> r.id] : r \in {e.after[s][i] : i \in DOMAIN e.after[s]}}
OldIds(e, s) == {e.before[s][i].id : i \in DOMAIN e.before[s]}
(* creations expected in species t: <<source species, row, role>> *)
Births(e, t) ==
    UNION {{<<j, i, "photon">> : i \in {i \in DOMAIN e.before[Links[j].sp] : e.before[Links[j].sp][i].ev = 1}} :
             j \in {j \in DOMAIN Links : Links[j].kind = "emit" /\ Links[j].photon = t}}
    \cup UNION {{<<j, i, "ele">> : i \in {i \in DOMAIN e.before[Links[j].sp] : e.before[Links[j].sp][i].ev = 1}} :
             j \in {j \in DOMAIN Links : Links[j].kind = "pair" /\ Links[j].ele = t}}
    \cup UNION {{<<j, i, "pos">> : i \in {i \in DOMAIN e.before[Links[j].sp] : e.before[Links[j].sp][i].ev = 1}} :
             j \in {j \in DOMAIN Links : Links[j].kind = "pair" /\ Links[j].pos = t}}
BirthRow(e, b) == LET r == e.before[Links[b[1]].sp][b[2]]
                  IN [k |-> r.k, u |-> Scale(r.u, IF b[3] = "pos" THEN 8 - r.d ELSE r.d)]
Clauses(e) ==
    UNION { LET kept == Kept(e, s) now == Now(e, s) births == Births(e, s)
                new == {x \in now : x \notin kept}
                want == [b \in births |-> BirthRow(e, b)]
                rows == {[k |-> x.k, u |-> x.u] : x \in new}
            IN (IF kept \subseteq now THEN {} ELSE {"species " \o ToString(s) \o ": an existing particle changed otherwise than by its recoil or disappeared"})
               \cup (IF Cardinality(now) = Len(e.after[s]) THEN {} ELSE {"species " \o ToString(s) \o ": two live particles are the same"})
               \cup (IF Cardinality(new) = Cardinality(births) /\ rows = {want[b] : b \in births}
                        /\ \A r \in rows : Cardinality({x \in new : x.k = r.k /\ x.u = r.u}) = Cardinality({b \in births : want[b] = r})
                     THEN {} ELSE {"species " \o ToString(s) \o ": the new particles are not exactly those the events ask for"})
               \cup (IF \A i \in DOMAIN e.after[s] : e.after[s][i].g \in (2^20 - 2)..(2^20 + 2) THEN {} ELSE {"species " \o ToString(s) \o ": energy and momentum of a particle disagree"})
          : s \in Sp(e) }
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET bad == TLCEval(Clauses(Traces[tr].ev[l]))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
