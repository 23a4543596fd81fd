------------------------------ MODULE TTables ------------------------------
(* Neighbour tables (property D01).  An event logs every patch of every       *)
(* process: c coordinates, idx global index, rank (the process holding it),    *)
(* own (the rank it believes to be on), slot (1-based position in the          *)
(* process' patch list), nb: list of [d, idx, rank, slot] with -1 for nothing.  *)
(* A neighbour's rank is recorded only when it is another process, its slot     *)
(* only when it is the same process.                                          *)
EXTENDS Grid, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>

Domain(c) == IF c.mask = <<>> THEN PatchCoords(c.np) ELSE {c.mask[i] : i \in DOMAIN c.mask}

NbOf(c, present, p, d) == LET q == Adj(c.np, c.per, p, d) IN IF q = <<>> \/ q \notin present THEN <<>> ELSE q

Clauses(e) ==
    LET c == Traces[tr].cfg
        P == e.patches
        coords == {P[i].c : i \in DOMAIN P}
        want == Domain(c)
        at == [x \in coords |-> P[CHOOSE i \in DOMAIN P : P[i].c = x]]
    IN (IF coords = want /\ Cardinality(coords) = Len(P) THEN {} ELSE {"patches held are not exactly the patches of the domain, once each"})
     \cup (IF Cardinality({P[i].idx : i \in DOMAIN P}) = Len(P) THEN {} ELSE {"patch indices are not unique"})
     \cup (IF Cardinality({<<P[i].rank, P[i].slot>> : i \in DOMAIN P}) = Len(P) THEN {} ELSE {"slots are not unique"})
     \cup (IF \A r \in 0..(c.nrank - 1) : \E i \in DOMAIN P : P[i].rank = r THEN {} ELSE {"a process holds no patch"})
     \cup (IF \A i \in DOMAIN P : P[i].own = P[i].rank THEN {} ELSE {"a patch records another process than the one holding it"})
     \cup (IF coords # want THEN {} ELSE
           UNION { UNION { LET n == P[i].nb[j]
                               q == NbOf(c, want, P[i].c, n.d)
                               exp == IF q = <<>> THEN <<-1, -1, -1>>
                                      ELSE <<at[q].idx, IF at[q].rank = P[i].rank THEN -1 ELSE at[q].rank,
                                             IF at[q].rank = P[i].rank THEN at[q].slot ELSE -1>>
                           IN IF <<n.idx, n.rank, n.slot>> = exp THEN {}
                              ELSE {"neighbour of patch " \o ToString(P[i].c) \o " in direction " \o ToString(n.d) \o " is "
                                    \o ToString(<<n.idx, n.rank, n.slot>>) \o " instead of " \o ToString(exp)}
                         : j \in DOMAIN P[i].nb } : i \in DOMAIN P })
     \cup (IF \A i \in DOMAIN P : {P[i].nb[j].d : j \in DOMAIN P[i].nb} = {d \in Dirs(Len(c.np)) : TRUE} THEN {} ELSE {"not every direction has an entry"})
     \cup (IF e.op # "shift" \/ Len(P) = 0 THEN {} ELSE {})

Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET bad == TLCEval(Clauses(Traces[tr].ev[l]))
               few == IF Cardinality(bad) > 3 THEN {CHOOSE x \in bad : TRUE} ELSE bad
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, few>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
