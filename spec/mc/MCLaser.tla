------------------------------ MODULE MCLaser ------------------------------
(* A row of patches along the injecting boundary, each on some rank.  The laser takes the difference    *)
(* of bx across the lower edge of each patch, so it needs the neighbour's bx of this moment: bx was        *)
(* just advanced, the guard was not.  Versions count the half-updates of a patch's bx.                       *)
(* Variants: "stale" does not refresh the guards, "local" only between patches of one rank, "after"            *)
(* refreshes after the laser; "min" ends a sum with its first laser, "none" lets a finished laser                *)
(* silence the others, "last" keeps only the last of several boundaries.                                            *)
EXTENDS Laser, TLC
CONSTANTS NP, NR, Steps, MaxStop, Variant
VARIABLES own, ver, gd, ph, t, done, read, stops, src
vars == <<own, ver, gd, ph, t, done, read, stops, src>>
P == 0..(NP - 1)
Left(p) == (p + NP - 1) % NP
Init == /\ own \in [P -> 0..(NR - 1)] /\ stops \in [{1, 2} -> 1..MaxStop]
        /\ ver = [p \in P |-> 0] /\ gd = [p \in P |-> 0]
        /\ ph = "b" /\ t = 0 /\ done = {} /\ read = {} /\ src = {}
Phases == <<"b", "pre", "laser", "post">>
After(x) == CASE x = "b" -> (IF Variant \in {"stale", "after"} THEN "laser" ELSE "pre") [] x = "pre" -> "laser" [] x = "laser" -> "post" [] OTHER -> "b"
Advance == /\ done = P /\ done' = {} /\ ph' = After(ph)
           /\ t' = IF ph = "post" THEN t + 1 ELSE t
           /\ read' = IF ph = "post" THEN {} ELSE read
           /\ src' = IF ph = "post" THEN {} ELSE src
           /\ UNCHANGED <<own, ver, gd, stops>>
B(p) == ph = "b" /\ p \notin done /\ t < Steps /\ ver' = [ver EXCEPT ![p] = @ + 1] /\ done' = done \cup {p}
        /\ UNCHANGED <<own, gd, ph, t, read, stops, src>>
Sync(p) == /\ ph \in {"pre", "post"} /\ p \notin done /\ done' = done \cup {p}
           /\ gd' = IF ph = "pre" /\ Variant = "local" /\ own[p] # own[Left(p)] THEN gd ELSE [gd EXCEPT ![p] = ver[Left(p)]]
           /\ UNCHANGED <<own, ver, ph, t, read, stops, src>>
Joint == CASE Variant = "min" -> IF \A i \in DOMAIN stops : t < stops[i] THEN DOMAIN stops ELSE {}
           [] Variant = "none" -> IF t < stops[1] THEN Shining(stops, t) ELSE {}
           [] Variant = "last" -> Shining(stops, t) \cap {2}
           [] OTHER -> Shining(stops, t)
Shine(p) == /\ ph = "laser" /\ p \notin done /\ done' = done \cup {p}
            /\ read' = read \cup {<<p, ver[p], gd[p]>>}
            /\ src' = src \cup Joint
            /\ UNCHANGED <<own, ver, gd, ph, t, stops>>
Next == Advance \/ \E p \in P : B(p) \/ Sync(p) \/ Shine(p)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Fresh == \A x \in read : x[2] = x[3]
Sum == (ph = "laser" /\ done = P) => src = Source(stops, t)
=============================================================================
