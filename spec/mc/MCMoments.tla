------------------------------ MODULE MCMoments ------------------------------
(* Bulk and thermal momenta given to the particles of one species, patch by patch on several   *)
(* processes in any order; another species stands by.  Draw d of process r is r * 100 + d.        *)
(* Variants: "dead" gives momenta to free slots, "gamma" keeps the old Lorentz factor when           *)
(* adding, "lost" lets the thermal part overwrite the bulk, "same" draws alike on every process.        *)
EXTENDS Moments
CONSTANTS NP, NS, Ranks, Us, Ms, Variant
VARIABLES p, p0, rank, m, thermal, add, pc, drawn, got
vars == <<p, p0, rank, m, thermal, add, pc, drawn, got>>
Pat == 1..NP
Slots == 1..NS
Init == /\ p0 \in [Pat -> [Slots -> {[live |-> b, u |-> u, g |-> Gam(u), w |-> 1] : b \in BOOLEAN, u \in Us}]]
        /\ p = p0
        /\ rank \in [Pat -> Ranks]
        /\ m \in Ms /\ thermal \in {"no", "only", "both"} /\ add \in BOOLEAN
        /\ pc = [q \in Pat |-> "bulk"]
        /\ drawn = [r \in Ranks |-> 0]
        /\ got = [q \in Pat |-> [i \in Slots |-> 0]]
On(s) == s.live \/ Variant = "dead"
Bulk(q) == /\ pc[q] = "bulk"
           /\ pc' = [pc EXCEPT ![q] = "heat"]
           /\ p' = IF thermal = "only" THEN p
                   ELSE [p EXCEPT ![q] = [i \in Slots |-> IF ~On(p[q][i]) THEN p[q][i]
                           ELSE LET s == SetTo(p[q][i], m, add) IN IF Variant = "gamma" /\ add THEN [s EXCEPT !.g = p[q][i].g] ELSE s]]
           /\ UNCHANGED <<p0, rank, m, thermal, add, drawn, got>>
Nth(q, i) == Cardinality({k \in Slots : k <= i /\ On(p[q][k])})
Draw(q, i) == (IF Variant = "same" THEN 0 ELSE rank[q] * 100) + drawn[rank[q]] + Nth(q, i)
(* a thermal part is added to the bulk, or to what was there if asked for *)
Heat(q) == /\ pc[q] = "heat"
           /\ (\A k \in Pat : rank[k] = rank[q] => pc[k] # "bulk")       \* bulk of all patches of a process first
           /\ pc' = [pc EXCEPT ![q] = "done"]
           /\ IF thermal = "no" THEN UNCHANGED <<p, drawn, got>>
              ELSE /\ got' = [got EXCEPT ![q] = [i \in Slots |-> IF On(p[q][i]) THEN Draw(q, i) ELSE 0]]
                   /\ p' = [p EXCEPT ![q] = [i \in Slots |-> IF On(p[q][i])
                             THEN SetTo(p[q][i], Draw(q, i), IF thermal = "both" THEN Variant # "lost" ELSE add) ELSE p[q][i]]]
                   /\ drawn' = [drawn EXCEPT ![rank[q]] = @ + Cardinality({i \in Slots : On(p[q][i])})]
           /\ UNCHANGED <<p0, rank, m, thermal, add>>
Next == \E q \in Pat : Bulk(q) \/ Heat(q)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == \A q \in Pat : pc[q] = "done"
Exact == Done => \A q \in Pat, i \in Slots :
            p[q][i] = Wanted(p0[q][i], IF thermal = "only" THEN 0 ELSE m, IF thermal = "no" THEN 0 ELSE got[q][i], add)
Independent == Done /\ thermal # "no" => \A a, b \in Pat \X Slots :
            (a # b /\ p0[a[1]][a[2]].live /\ p0[b[1]][b[2]].live) => got[a[1]][a[2]] # got[b[1]][b[2]]
Lorentz == \A q \in Pat, i \in Slots : p[q][i].g = Gam(p[q][i].u)
=============================================================================
