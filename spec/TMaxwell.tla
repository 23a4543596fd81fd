------------------------------ MODULE TMaxwell ------------------------------
(* Recorded steps of the field solver (property N01); see Maxwell.  Events:        *)
(*   step   global fields at four moments of a step: s (start), m1 (after the first   *)
(*          half), pre (before the second half), m2 (after it); the currents j1 of the  *)
(*          first half and j2 of the second, as dt j / eps0 in field units               *)
(*   agree  the fields of two divisions of the domain after the same step                *)
EXTENDS Maxwell, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, prev
vars == <<tr, l, prev>>
Cfg == Traces[tr].cfg
N == Cfg.N
K == Cfg.K
Tol == 40
Near(x) == x \in -Tol..Tol
Inner == {g \in 1..(N[1] * N[2] * N[3]) : \A a \in 1..3 : Pos(N, g)[a] >= Cfg.lo[a] /\ Pos(N, g)[a] < Cfg.hi[a]}
EHalf(F0, FB, j, F1) == \A g \in Inner, c \in 1..3 : Near(8 * (F1[c][g] - F0[c][g]) - DE(N, K, FB, c, g) + 4 * j[c][g])
BHalf(F0, FE, F1) == \A g \in Inner, c \in 4..6 : Near(8 * (F1[c][g] - F0[c][g]) - DB(N, K, FE, c, g))
Clauses(e) ==
    CASE e.op = "step" ->
           (IF prev = <<>> \/ prev = e.s THEN {} ELSE {"fields change between two steps"})
           \cup (IF EHalf(e.s, e.s, e.j1, e.m1) THEN {} ELSE {"first half step of E"})
           \cup (IF BHalf(e.s, e.m1, e.m1) THEN {} ELSE {"first half step of B"})
           \cup (IF e.m1 = e.pre THEN {} ELSE {"fields change while particles move"})
           \cup (IF BHalf(e.pre, e.pre, e.m2) THEN {} ELSE {"second half step of B"})
           \cup (IF EHalf(e.pre, e.m2, e.j2, e.m2) THEN {} ELSE {"second half step of E"})
      [] OTHER -> IF \A c \in 1..6 : Len(e.a[c]) = Len(e.b[c]) /\ \A g \in DOMAIN e.a[c] : e.a[c][g] - e.b[c][g] \in -2..2
                  THEN {} ELSE {"two divisions of the domain give different fields"}
Init == tr \in DOMAIN Traces /\ l = 1 /\ prev = <<>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr /\ prev' = IF e.op = "step" THEN e.m2 ELSE <<>>
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
