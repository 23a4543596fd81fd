------------------------------ MODULE TInterval ------------------------------
(* Recorded firings (property H02).  Events: fired = one callback: the steps at which  *)
(* its stage was reached (visits) and at which its body ran (at), with its interval     *)
(* [k: "int", n] / ["time", a, b] / ["pred", m, c, w]; invalid = an invalid interval     *)
(* and when it was refused ("create", "use", "never").                                    *)
EXTENDS Interval, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Due1(i, k) == CASE i.k = "int" -> FiresInt(i.n, k) [] i.k = "time" -> Fires(i.a, i.b, k) [] OTHER -> Pred(i.m, i.c, i.w, k)
Clauses(e) ==
    CASE e.op = "fired" ->
           LET want == SelectSeq(e.visits, LAMBDA k : Due1(e.i, k))
           IN IF e.at = want THEN {} ELSE {"an interval fires at the wrong steps (" \o e.i.k \o ", " \o e.cls \o ")"}
      [] OTHER -> IF e.when = "create" \/ (e.when = "use" /\ e.cls # "decorator") THEN {} ELSE {"an invalid interval is accepted"}
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
