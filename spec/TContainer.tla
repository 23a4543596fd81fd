----------------------------- MODULE TContainer -----------------------------
(* Particle containers (property G02).  Every event carries the complete      *)
(* container after the operation; ids are renumbered by first appearance.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st, used
vars == <<tr, l, st, used>>
slots == <<>>
C == INSTANCE Container WITH slots <- <<>>, used <- 0, copy <- <<>>, MaxSlots <- 0, MaxId <- 0
Clauses(e) ==
    LET t == e.slots IN
    (IF e.npart = Len(t) /\ e.shape_ok THEN {} ELSE {"attribute arrays and the particle count disagree in length"})
    \cup (CASE e.op = "init" -> IF C!InitOK(t, e.n, used) THEN {} ELSE {"a new container must hold n live particles with fresh identities"}
            [] e.op = "grow" -> IF C!GrowOK(st, t, e.n, used) THEN {} ELSE {"growing changed an existing particle or did not add dead, weightless slots with fresh identities"}
            [] e.op = "set" -> IF C!EqualOK(t, t) THEN {} ELSE {"set"}
            [] e.op = "shrink" -> IF C!ShrinkOK(st, t) THEN {} ELSE {"shrinking lost or tore a live particle"}
            [] e.op = "copy" -> IF C!EqualOK(st, t) THEN {} ELSE {"a restored copy differs from the original"}
            [] e.op = "orig" -> IF C!EqualOK(e.before, t) THEN {} ELSE {"changing a copy changed the original"})
Init == tr \in DOMAIN Traces /\ l = 1 /\ st = <<>> /\ used = {}
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l]
               bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ st' = IF e.op = "orig" THEN st ELSE e.slots
              /\ used' = used \cup C!Ids(e.slots)
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
