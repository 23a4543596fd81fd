-------------------------------- MODULE TLoad --------------------------------
(* Contents of every cell after initialisation (property U01).  A profile takes the       *)
(* value ((a i + b j + c k) mod m - o) s in cell (i,j,k); weights are counted in units      *)
(* of the cell volume.                                                                        *)
(*   load   s: species; cells: <<cell, particles, smallest, largest weight>>; n: particles;    *)
(*          rest: how many are at rest with unit gamma; own: how many are kept by the patch      *)
(*          owning their cell; half: how many lie in the upper half of their cell, per axis;       *)
(*          ids: <<process, patch, number>>                                                          *)
EXTENDS Load, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Cfg == Traces[tr].cfg
Cells == {<<i, j, k>> : i \in Cfg.lo[1]..(Cfg.hi[1] - 1), j \in Cfg.lo[2]..(Cfg.hi[2] - 1), k \in Cfg.lo[3]..(Cfg.hi[3] - 1)}
Val(f, c) == IF f.kind = "const" THEN f.v ELSE (((f.a * c[1] + f.b * c[2] + f.c * c[3]) % f.m) - f.o) * f.s
Sp(e) == Cfg.species[e.s]
Dens(e, c) == IF Sp(e).has = 0 THEN 0 ELSE Val(Sp(e).dens, c)
Ppc(e, c) == Val(Sp(e).ppc, c)
Count(e, c) == IF Sp(e).has = 0 THEN 0 ELSE Loaded(Dens(e, c), Sp(e).dmin, Ppc(e, c))
Moving(e) == IF "mom" \in DOMAIN Sp(e) THEN Sp(e).mom ELSE 0
Idents(s) == {s.ids[i] : i \in DOMAIN s.ids}
Clauses(e) ==
    LET got == {e.cells[i][1] : i \in DOMAIN e.cells}
        want == {c \in Cells : Count(e, c) > 0}
        at(c) == e.cells[CHOOSE i \in DOMAIN e.cells : e.cells[i][1] = c]
        both == got \cap want
    IN (IF got \subseteq want THEN {} ELSE {"particles where none belong"})
       \cup (IF want \subseteq got THEN {} ELSE {"a cell was left empty"})
       \cup (IF \A c \in both : at(c)[2] = Count(e, c) THEN {} ELSE {"wrong number of particles in a cell"})
       \cup (IF \A c \in both : at(c)[3] = at(c)[4] /\ at(c)[3] = Share(Dens(e, c), Ppc(e, c)) THEN {} ELSE {"wrong weights in a cell"})
       \cup (IF Moving(e) = 0 => e.rest = e.n THEN {} ELSE {"a particle is not at rest"})
       \cup (IF Moving(e) # 0 => e.rest = 0 THEN {} ELSE {"the configured momentum is not given"})
       \cup (IF e.own = e.n THEN {} ELSE {"a particle is kept by the wrong patch"})
       \cup (IF e.n >= 64 => \A a \in DOMAIN e.half : e.half[a] \in (e.n \div 10)..(e.n - e.n \div 10) THEN {} ELSE {"particles do not fill their cells"})
       \cup (IF Cardinality(Idents(e)) = e.n THEN {} ELSE {"identities repeat"})
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
