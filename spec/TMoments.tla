------------------------------ MODULE TMoments ------------------------------
(* Callbacks that set momenta and temperatures (property T01).                                 *)
(*   set   k: "m" momentum, "t" temperature, "mt" both; sp: target (from 0); add; mom in 1/64;     *)
(*         before, after: per species digests per patch of <<the dead, the live without momenta,     *)
(*         the live>>; u: live momenta before and after (or, for many, the largest deviation)            *)
(*         in 2^-16; gam: inv_gamma * sqrt(1 + u^2) (photons: |u|) in 2^-20; for temperatures, in 1/4096    *)
(*         of what is expected: T <u_i^2 / gamma>, mean and cross correlations in units of the spread,        *)
(*         energy; distinct: number of distinct thermal momenta                                                  *)
(*   hits  steps at which the default interval fired                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Cfg == Traces[tr].cfg
Near(a, b, t) == a - b \in -t..t
Kind(e) == Cfg.species[e.sp + 1].kind
Many(e) == e.n > 3000
-----------------------------------------------------------------------------
Untouched(e) ==
    (IF \A s \in DOMAIN e.before : s # e.sp + 1 => e.before[s] = e.after[s] THEN {} ELSE {"another species changed"})
    \cup (IF e.before[e.sp + 1][1] = e.after[e.sp + 1][1] THEN {} ELSE {"free slots changed"})
    \cup (IF e.before[e.sp + 1][2] = e.after[e.sp + 1][2] THEN {} ELSE {"more than the momenta changed"})
Gamma(e) == IF \A k \in DOMAIN e.gam : Near(e.gam[k], 1048576, 4) THEN {} ELSE {"the Lorentz factor does not belong to the momentum"}
Exact(e) == IF Many(e) THEN (IF \A a \in 1..3 : Near(e.u[1][a], 0, 2) THEN {} ELSE {"wrong momentum"})
            ELSE IF \A k \in DOMAIN e.u[2] : \A a \in 1..3 : Near(e.u[2][k][a], (IF e.add = 1 THEN e.u[1][k][a] ELSE 0) + e.mom[a] * 1024, 2) THEN {} ELSE {"wrong momentum"}
(* six standard deviations for the number of particles, and 4 percent for the sampling formulas in use *)
Root(n) == CHOOSE k \in 1..400 : k * k <= n /\ (k + 1) * (k + 1) > n
Thermal(e) ==
    (IF e.distinct = e.n THEN {} ELSE {"particles share their thermal momentum"})
    \cup (IF e.cold = 1 => \A a \in 1..3 : e.T[a] = -1 THEN {} ELSE {"a cold species moves"})
    \cup (IF \A a \in 1..3 : e.T[a] # 700000 THEN {} ELSE {"momentum along a cold axis"})
    \cup (IF e.n < 10000 \/ e.cold = 1 THEN {}
          ELSE LET s == 4096 \div Root(e.n)
               IN (IF \A a \in 1..3 : e.T[a] = -1 \/ Near(e.T[a], 4096, 9 * s + 164) THEN {} ELSE {"not the temperature asked for"})
                  \cup (IF \A a \in 1..3 : Near(e.mean[a], 0, 6 * s + 4) THEN {} ELSE {"the thermal momenta drift"})
                  \cup (IF \A a \in 1..3 : Near(e.cross[a], 0, 8 * s + 4) THEN {} ELSE {"the thermal momenta prefer a direction"})
                  \cup (IF Near(e.energy, 4096, 9 * s + 164) THEN {} ELSE {"not the mean energy of the temperature"}))
Clauses(e) == IF e.op = "hits" THEN (IF e.at = <<0>> THEN {} ELSE {"the default interval does not fire once at the start"})
              ELSE Untouched(e) \cup Gamma(e) \cup (IF e.n = 0 THEN {} ELSE IF e.k = "m" THEN Exact(e) ELSE Thermal(e))
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
