------------------------------ MODULE MCFreeze ------------------------------
(* One step visits the species in their order, phase by phase: sort, screening, collisions, push    *)
(* with deposit, making particles.  Species are switched between the steps.  What a phase reads is     *)
(* kept as the set of its sources <<species, step>>.  Variants: "collide", "debye", "deposit", "emit"    *)
(* do not ask whether a species is on, "first" clears the screening for species 0 only, "slot" counts      *)
(* the species that are on instead of using their numbers.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS NS, Steps, Pairs, Variant
VARIABLES on, t, ph, i, screen, cur, made, hist, hit
vars == <<on, t, ph, i, screen, cur, made, hist, hit>>
S == 0..(NS - 1)
(* hist: what was done to the species, as it sees it; hit: what happened to it while off *)
Init == /\ on \in [S -> BOOLEAN] /\ t = 0 /\ ph = "idle" /\ i = 0
        /\ screen = {} /\ cur = {} /\ made = {} /\ hist = [s \in S |-> {}] /\ hit = {}
Ok(v, s) == on[s] \/ Variant = v
Live == {s \in S : on[s]}
Switch == /\ ph = "idle" /\ t < Steps
          /\ \E s \in S : on' = [on EXCEPT ![s] = ~@]
          /\ UNCHANGED <<t, ph, i, screen, cur, made, hist, hit>>
Start == ph = "idle" /\ t < Steps /\ ph' = "screen" /\ i' = 0 /\ cur' = {} /\ made' = {}
         /\ UNCHANGED <<on, t, screen, hist, hit>>
First == IF Variant = "first" THEN i = 0 ELSE i = Min(Live)
Screen == /\ ph = "screen"
          /\ IF i = NS THEN ph' = "collide" /\ i' = 0 /\ UNCHANGED screen
             ELSE /\ i' = i + 1 /\ ph' = ph
                  /\ screen' = IF Ok("debye", i) \/ (Variant = "first" /\ on[i])
                               THEN (IF Live # {} /\ First THEN {} ELSE screen) \cup {<<i, t>>} ELSE screen
          /\ UNCHANGED <<on, t, cur, made, hist, hit>>
Collide == /\ ph = "collide"
           /\ IF i = Len(Pairs) THEN ph' = "push" /\ i' = 0 /\ UNCHANGED <<hist, hit>>
              ELSE LET a == Pairs[i + 1][1] b == Pairs[i + 1][2]
                   IN /\ i' = i + 1 /\ ph' = ph
                      /\ IF Ok("collide", a) /\ Ok("collide", b)
                         THEN /\ hist' = [hist EXCEPT ![a] = @ \cup {<<"c", b, t>>} \cup {<<"s", x[1], x[2]>> : x \in screen},
                                                      ![b] = @ \cup {<<"c", a, t>>} \cup {<<"s", x[1], x[2]>> : x \in screen}]
                              /\ hit' = hit \cup {s \in {a, b} : ~on[s]}
                         ELSE UNCHANGED <<hist, hit>>
           /\ UNCHANGED <<on, t, screen, cur, made>>
Push == /\ ph = "push"
        /\ IF i = NS THEN ph' = "make" /\ i' = 0 /\ UNCHANGED <<cur, hist, hit>>
           ELSE LET s == IF Variant = "slot" THEN Cardinality({x \in Live : x < i}) ELSE i
                IN /\ i' = i + 1 /\ ph' = ph
                   /\ IF Ok("deposit", i)
                      THEN /\ cur' = cur \cup {<<s, t>>} /\ hist' = [hist EXCEPT ![s] = @ \cup {<<"p", s, t>>}]
                           /\ hit' = hit \cup {x \in {s} : ~on[x]}
                      ELSE UNCHANGED <<cur, hist, hit>>
        /\ UNCHANGED <<on, t, screen, made>>
Make == /\ ph = "make"
        /\ IF i = NS THEN ph' = "idle" /\ t' = t + 1 /\ i' = 0 /\ UNCHANGED made
           ELSE i' = i + 1 /\ ph' = ph /\ t' = t /\ made' = IF Ok("emit", i) THEN made \cup {i} ELSE made
        /\ UNCHANGED <<on, screen, cur, hist, hit>>
Next == Switch \/ Start \/ Screen \/ Collide \/ Push \/ Make
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Frozen == hit = {}
Absent == /\ (ph = "collide" => screen = {<<s, t>> : s \in Live} \/ Live = {})
          /\ (ph = "make" => cur = {<<s, t>> : s \in Live})
          /\ (ph = "make" => made \subseteq Live)
Goes == ph = "make" => \A s \in Live : <<"p", s, t>> \in hist[s]
P3 == <<<<0, 0>>, <<0, 1>>, <<1, 2>>>>
=============================================================================
