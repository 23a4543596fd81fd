------------------------------- MODULE MCPush -------------------------------
(* Two ways through the push of a species, for any storage: blocks ("strips") that go      *)
(* through all phases together, or phase after phase over the whole storage, with an         *)
(* observer between the phases.  Patches run on threads in any order, species in turn.          *)
(* Variants: "clean" takes a strip for free of dead slots by its first one, "tail" forgets        *)
(* the last incomplete strip,                                                                          *)
(* "wipe" deposits over what an earlier species left.                                                *)
EXTENDS Push
CONSTANTS L, N, Strip, NP, NS, Starts, Variant
VARIABLES p, dead, E, path, sp, pc, pos, j, p0
vars == <<p, dead, E, path, sp, pc, pos, j, p0>>
Slots == 1..N
Pat == 1..NP
Spc == 1..NS
Cells == 0..(L - 1)
Phases == <<"half1", "kick", "half2", "dep">>
Init == /\ \E f \in [Slots -> Starts] : p0 = [s \in Spc |-> [q \in Pat |-> [i \in Slots |-> [x |-> (f[i] + q) % L, u |-> (f[i] + s) % 2]]]]
        /\ p = p0
        /\ dead \in [Spc -> [Pat -> SUBSET Slots]]
        /\ E = [c \in Cells |-> c]
        /\ path \in [Spc -> {"strips", "phases"}]
        /\ sp = 1
        /\ pc = [q \in Pat |-> 1] /\ pos = [q \in Pat |-> 1]
        /\ j = [q \in Pat |-> [c \in Cells |-> 0]]

(* the slots the next sub-step of a patch works on *)
Block(q) == IF path[sp] = "phases" THEN Slots ELSE {i \in Slots : i >= pos[q] /\ i < pos[q] + Strip}
Skip(q, i) == IF Variant = "clean" /\ path[sp] = "strips" /\ pos[q] \notin dead[sp][q] THEN FALSE ELSE i \in dead[sp][q]
Work(q) == {i \in Block(q) : ~Skip(q, i)}
Do(q) == LET W == Work(q)
             ph == Phases[pc[q]]
             f(s) == CASE ph \in {"half1", "half2"} -> Half(L, s) [] ph = "kick" -> Kick(E, s) [] OTHER -> s
         IN /\ p' = [p EXCEPT ![sp][q] = [i \in Slots |-> IF i \in W THEN f(p[sp][q][i]) ELSE p[sp][q][i]]]
            /\ j' = IF ph = "dep" THEN [j EXCEPT ![q] = [c \in Cells |-> (IF Variant = "wipe" /\ pos[q] = 1 THEN 0 ELSE j[q][c]) + Deposit(p[sp][q], W, c)]] ELSE j
Last(q) == path[sp] = "phases" \/ pos[q] + Strip > N \/ (Variant = "tail" /\ pos[q] + 2 * Strip > N)
Step(q) == /\ pc[q] <= 4
           /\ (path[sp] = "phases" => \A r \in Pat : pc[r] >= pc[q])    \* phase after phase
           /\ Do(q)
           /\ IF pc[q] < 4 THEN pc' = [pc EXCEPT ![q] = @ + 1] /\ pos' = pos
              ELSE IF Last(q) THEN pc' = [pc EXCEPT ![q] = 5] /\ pos' = pos
              ELSE pc' = [pc EXCEPT ![q] = 1] /\ pos' = [pos EXCEPT ![q] = @ + Strip]
           /\ UNCHANGED <<dead, E, path, sp, p0>>
NextSpecies == /\ \A q \in Pat : pc[q] = 5
               /\ sp <= NS
               /\ sp' = sp + 1
               /\ pc' = [q \in Pat |-> IF sp = NS THEN 6 ELSE 1] /\ pos' = [q \in Pat |-> 1]
               /\ UNCHANGED <<p, dead, E, path, j, p0>>
Next == (sp <= NS /\ \E q \in Pat : Step(q)) \/ NextSpecies
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Want(s, q, i) == IF i \in dead[s][q] THEN p0[s][q][i] ELSE Pushed(L, E, p0[s][q][i])
Finished == sp > NS
Same == Finished => \A s \in Spc, q \in Pat, i \in Slots : p[s][q][i] = Want(s, q, i)
Currents == Finished => \A q \in Pat, c \in Cells :
               j[q][c] = MapThenSumSet(LAMBDA s : MapThenSumSet(LAMBDA i : IF i \notin dead[s][q] /\ Want(s, q, i).x = c THEN Want(s, q, i).u ELSE 0, Slots), Spc)
=============================================================================
