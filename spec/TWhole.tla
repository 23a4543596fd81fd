------------------------------- MODULE TWhole -------------------------------
(* A plasma simulated on two divisions of the domain (property W01).                           *)
(*   step   a, b: E, B, J and charge density of the whole grid at the end of a step, in 2^24 of  *)
(*          the largest of their kind; pa, pb: the live particles in order of species and           *)
(*          identity, each <<species, identity, lies in its patch, place.., momentum.., 1/gamma,       *)
(*          weight>>; n: particles per species at the start                                               *)
(*   gauss  r: change of epsilon_0 div E - rho since the second step, in 2^20 of the largest rho              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Cfg == Traces[tr].cfg
D == Len(Cfg.np)
Bad == -777777777
Near(a, b, t) == a - b \in -t..t
Tol(e) == 32 * e.t
Keys(ps) == [i \in DOMAIN ps |-> <<ps[i][1], ps[i][2]>>]
(* the domain wraps around *)
NearPlace(a, b, t) == Near(a, b, t) \/ Near(a, b + 16777216, t) \/ Near(a + 16777216, b, t)
Closed == \A a \in 1..D : Cfg.per[a]
StepClauses(e) ==
    LET t == Tol(e)
        P == DOMAIN e.pa
        match == Keys(e.pa) = Keys(e.pb)
    IN (IF match THEN {} ELSE {"the divisions hold different particles"})
       \cup (IF \A ps \in {e.pa, e.pb} : \A i, j \in DOMAIN ps : (i < j) => (ps[i][1] # ps[j][1] \/ ps[i][2] # ps[j][2]) THEN {} ELSE {"a particle exists twice"})
       \cup (IF Closed => \A ps \in {e.pa, e.pb} : \A s \in DOMAIN e.n : Cardinality({i \in DOMAIN ps : ps[i][1] = s - 1}) = e.n[s] THEN {} ELSE {"the number of particles changed in a closed domain"})
       \cup (IF \A ps \in {e.pa, e.pb} : \A i \in DOMAIN ps : ps[i][3] = 1 THEN {} ELSE {"a particle lies outside its patch"})
       \cup (IF \A ps \in {e.pa, e.pb} : \A i \in DOMAIN ps : \A k \in DOMAIN ps[i] : ps[i][k] # Bad THEN {} ELSE {"a particle has no numbers"})
       \cup (IF match => \A i \in P : /\ \A k \in 4..(3 + D) : NearPlace(e.pa[i][k], e.pb[i][k], t)
                                      /\ \A k \in (4 + D)..(7 + D) : Near(e.pa[i][k], e.pb[i][k], t)
                                      /\ e.pa[i][8 + D] = e.pb[i][8 + D] THEN {} ELSE {"a particle moves differently on the two divisions"})
       \cup (IF \A c \in 1..10 : Len(e.a[c]) = Len(e.b[c]) /\ \A k \in DOMAIN e.a[c] : Near(e.a[c][k], e.b[c][k], t) /\ e.a[c][k] # Bad THEN {} ELSE {"the fields differ on the two divisions"})
GaussClauses(e) == IF \A k \in DOMAIN e.r : e.r[k] # Bad /\ Near(e.r[k], 0, 16) THEN {} ELSE {"Gauss's law is broken: the field does not follow the charge"}
Clauses(e) == IF e.op = "step" THEN StepClauses(e) ELSE GaussClauses(e)
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
