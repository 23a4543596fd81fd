------------------------------ MODULE TDivision ------------------------------
(* Recorded divisions (property X01).  divide: the grid, what was given, the threads of  *)
(* all processes, and the division chosen; tiles: the patches after initialisation and   *)
(* one step; refuse: a configuration that cannot be divided as asked.                     *)
EXTENDS Division, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Clause(c, m) == IF c THEN {} ELSE {m}
Divide(e) ==
    LET G == TLCEval(Grids(e.n, e.given, e.ng, e.pml))
        some == G # {}
        done == e.refused = 0
        \* the code wants four patches for every thread
        want == \E g \in G : Prod(g) >= 4 * e.threads
    IN Clause(e.same = 1, "the processes disagree about the division")
       \cup Clause(~some \/ done, "a grid that can be divided is refused")
       \cup (IF ~done THEN {} ELSE
               Clause(\A a \in DOMAIN e.n : e.np[a] >= 1 /\ e.n[a] % e.np[a] = 0, "the patches do not divide the grid evenly")
               \cup Clause(\A a \in DOMAIN e.n : e.given[a] = 0 \/ e.np[a] = e.given[a], "a given number of patches is not kept")
               \cup Clause(~some \/ \A a \in DOMAIN e.n : e.given[a] # 0 \/ Fits(e.n[a], e.np[a], e.ng, e.pml), "patches are too thin although a usable division exists")
               \cup Clause(~want \/ Prod(e.np) >= e.threads, "fewer patches than threads although a usable division has enough"))
Clauses(e) ==
    CASE e.op = "divide" -> Divide(e)
      [] e.op = "tiles" -> Clause(e.failed = "", "the chosen division cannot be run (" \o e.failed \o ")")
                           \cup (IF e.failed # "" THEN {} ELSE Clause(Tiles(e.n, e.tiles), "the patches do not tile the grid"))
      [] OTHER -> Clause(e.refused = 1, "a configuration is accepted that cannot be honoured (" \o e.what \o ")")
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
