-------------------------------- MODULE TRerun --------------------------------
(* Recorded runs (properties I01, R01): the reference run ("base"), then runs that must  *)
(* repeat it: "plain" (without dumps), "repeat", "again" (continued from a checkpoint of    *)
(* step from), "loaded" (the state right after loading it); "init": the initial particles     *)
(* of one start, relative to their patches.                                                     *)
EXTENDS Checkpoint, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Traces[tr].ev
Base(s) == {i \in DOMAIN Ev : Ev[i].op = "base" /\ Ev[i].st.s = s}
Part(k) == CASE k = 1 -> "fields" [] k = 2 -> "currents" [] k = 3 -> "absorbing layers" [] OTHER -> "particles"
Ps(x) == {<<x[i].idx, x[i].rank>> : i \in DOMAIN x}
Parts(x, y, what) ==
    IF Ps(x) # Ps(y) THEN {what \o ": the processes own other patches"}
    ELSE UNION {{what \o ": different " \o Part(k) : k \in {q \in DOMAIN x[i].c : x[i].c[q] # y[i].c[q]}} : i \in DOMAIN x}
Draws(x, y, what) == IF x.draws = y.draws THEN {} ELSE {what \o ": different random draws"}
Clock(x, y, what) == IF x.clock = y.clock THEN {} ELSE {what \o ": different step or time"}
What(e) == CASE e.op = "plain" -> "taking checkpoints changes the run" [] e.op = "again" -> "a restarted run departs" [] e.op = "loaded" -> "the loaded state"
             [] OTHER -> "a second run departs"
Clauses(e) ==
    CASE e.op = "base" -> IF Cardinality(Base(e.st.s)) = 1 THEN {} ELSE {"a step number is run twice"}
      [] e.op = "loaded" ->
           (IF Base(e.from) = {} THEN {"no checkpoint of this step"}
            ELSE LET b == Ev[CHOOSE i \in Base(e.from) : TRUE].st IN Parts(e.st.p, b.p, What(e)) \cup Draws(e.st, b, What(e)))
           \cup (IF e.st.s = e.from + 1 THEN {} ELSE {"the loaded state: not the following step"})
           \cup UNION {Clock(e.st, Ev[i].st, What(e)) : i \in Base(e.from + 1)}
      [] e.op = "init" ->
           LET H(q) == {q[i].h : i \in DOMAIN q}
           IN (IF Distinct([i \in DOMAIN e.h |-> e.h[i].h]) THEN {} ELSE {"patches or processes draw the same random numbers"})
              \cup (IF e.h # <<>> THEN {} ELSE {"no particles"})
              \cup UNION {LET o == Ev[i] IN
                          IF o.seed = e.seed /\ e.seed >= 0 THEN (IF o.h = e.h THEN {} ELSE {"the same seed gives other particles"})
                          ELSE IF H(o.h) \cap H(e.h) = {} THEN {} ELSE {"another seed, or none, gives the same particles"} : i \in 1..(l - 1)}
      [] OTHER ->
           IF Base(e.st.s) = {} THEN {What(e) \o ": a step the reference run does not have"}
           ELSE LET b == Ev[CHOOSE i \in Base(e.st.s) : TRUE].st
                IN Parts(e.st.p, b.p, What(e)) \cup Draws(e.st, b, What(e)) \cup Clock(e.st, b, What(e))
(* a continued run goes on to the end of the reference run, step by step *)
Follows(i) == IF Ev[i].op = "again" THEN Ev[i - 1].op \in {"again", "loaded"} /\ Ev[i].st.s = Ev[i - 1].st.s + (IF Ev[i - 1].op = "loaded" THEN 0 ELSE 1) ELSE TRUE
All(e) == TLCEval(Clauses(e) \cup (IF Follows(l) THEN {} ELSE {"a restarted run skips or repeats steps"}))
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Ev)
        /\ LET e == Ev[l] bad == All(e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
