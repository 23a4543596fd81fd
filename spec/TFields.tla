------------------------------ MODULE TFields ------------------------------
(* Trace validation of guard-cell exchanges and current synchronisation.      *)
(* Events (f: list of [c, v: component name -> array], the whole state):      *)
(*   place  the driver wrote the arrays                                       *)
(*   guard  a guard exchange of the components e.comps completed              *)
(*   cur    the current synchronisation completed                             *)
(*   again  it was requested once more without new deposits                   *)
(*   dep    the driver added its deposits during a step (delta arrays)        *)
(*   see    what was visible after a request in the middle of a step          *)
EXTENDS Fields, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st
vars == <<tr, l, st>>
Cur == {"jx", "jy", "jz", "rho"}
G == LET c == Traces[tr].cfg IN [np |-> c.np, per |-> c.per, n |-> c.n, ng |-> c.ng]

(* component -> patch -> array *)
ByComp(log) == LET first == log[1]
                   cs == {log[i].c : i \in DOMAIN log}
                   at == [c \in cs |-> CHOOSE i \in DOMAIN log : log[i].c = c]
               IN [m \in DOMAIN first.v |-> [c \in cs |-> log[at[c]].v[m]]]
Whole(log) == /\ Cardinality({log[i].c : i \in DOMAIN log}) = Len(log)
              /\ {log[i].c : i \in DOMAIN log} = PatchCoords(G.np)

Some(S) == CHOOSE x \in S : TRUE

GuardBad(e, A) ==
    UNION { LET bad == { y \in PatchCoords(G.np) \X Cells(G) :
                   At(A[m][y[1]], y[2]) # (IF m \in {e.comps[i] : i \in DOMAIN e.comps}
                                           THEN GuardExpected(G, st[m], y[1], y[2]) ELSE At(st[m][y[1]], y[2])) }
            IN IF bad = {} THEN {}
               ELSE LET y == Some(bad)
                        kind == IF m \notin {e.comps[i] : i \in DOMAIN e.comps} THEN "a component not asked for changed"
                                ELSE IF IsInterior(G, y[2]) THEN "an interior cell changed"
                                ELSE IF OutOfDomain(GlobalOf(G, y[1], y[2])) THEN "a guard cell outside the domain changed"
                                ELSE "a guard cell differs from the cell it stands for"
                    IN {kind \o ": " \o m \o " patch " \o ToString(y[1]) \o " stored cell " \o ToString(y[2])}
          : m \in DOMAIN st }

CurBad(A, what) ==
    LET tab == TLCEval(StandTab(G)) IN
    UNION { LET bad == { y \in PatchCoords(G.np) \X IntCells(G) :
                   At(A[m][y[1]], y[2]) # CurrentTotal(G, tab, st[m], GlobalOf(G, y[1], y[2])) }
            IN IF bad = {} THEN {}
               ELSE LET y == Some(bad)
                    IN {what \o ": " \o m \o " patch " \o ToString(y[1]) \o " stored cell " \o ToString(y[2])
                        \o " is " \o ToString(At(A[m][y[1]], y[2])) \o " instead of "
                        \o ToString(CurrentTotal(G, tab, st[m], GlobalOf(G, y[1], y[2])))}
          : m \in Cur }
    \cup { "the current synchronisation changed component " \o m : m \in {k \in DOMAIN A \ Cur : A[k] # st[k]} }
SameInterior(A, B) == \A m \in Cur : \A y \in PatchCoords(G.np) \X IntCells(G) : At(A[m][y[1]], y[2]) = At(B[m][y[1]], y[2])

(* sum of two stored arrays *)
Add(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> IF NDim(G) = 2 THEN a[i][j] + b[i][j]
                                     ELSE [k \in DOMAIN a[i][j] |-> a[i][j][k] + b[i][j][k]]]]

Clauses(e, A) ==
    IF ~Whole(e.f) THEN {"a patch is missing or not held exactly once"}
    ELSE CASE e.op = "place" -> {}
           [] e.op = "dep" -> {}
           [] e.op = "guard" -> GuardBad(e, A)
           [] e.op = "cur" -> CurBad(A, "wrong total after synchronisation")
           [] e.op = "see" -> CurBad(A, "visible current is not the sum of the deposits so far (" \o e.why \o ")")
           [] e.op = "again" -> IF SameInterior(A, st) THEN {} ELSE {"a second request changed the currents"}

Init == tr \in DOMAIN Traces /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l]
               A == TLCEval(ByComp(e.f))
               bad == TLCEval(Clauses(e, A))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ st' = CASE e.op = "dep" /\ e.first -> A
                         [] e.op = "dep" -> [m \in DOMAIN A |-> [c \in DOMAIN A[m] |-> Add(st[m][c], A[m][c])]]
                         [] e.op = "see" -> st
                         [] OTHER -> A
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
