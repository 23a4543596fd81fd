-------------------------------- MODULE TOutput --------------------------------
(* Recorded dumps and reloads (properties L01, L02, L03).                             *)
(*   fields  names, glob: the global arrays (gathered from the patches), sl: the        *)
(*           requested selection per axis (empty: everything), got: names -> array,        *)
(*           shape, meta: recorded step, time (in steps) and sizes                            *)
(*   get     as fields, from the gathering function; 3D: at z position zu (u-ths of a cell)     *)
(*   density parts: live particles <<w, x per axis>> of the species at the end of the interval  *)
(*           they deposit; got; sl                                                                  *)
(*   same    a, b: observations with and without the outputs                                          *)
(*   rows    live: rows of the live particles, got: rows of the file, names                             *)
(*   load    rows of the file, before/after: live particles <<patch, id, invg, attributes>>               *)
EXTENDS Output, Shape, FiniteSetsExt, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Cfg == Traces[tr].cfg
D == Len(Cfg.np)
U == Cfg.u
Num(a) == Cfg.np[a] * Cfg.n[a]
Dims == [a \in 1..D |-> Num(a)]
Sels(e) == TLCEval([a \in 1..D |-> IF e.sl = <<>> THEN [i \in 1..Num(a) |-> i - 1] ELSE Sel(e.sl[a], Num(a))])
Shape_(q) == [a \in 1..D |-> Len(q[a])]
(* positions of an array of the given shape, row-major, 1-based *)
Tup(sh, g) == LET h == g - 1 IN IF Len(sh) = 2 THEN <<(h \div sh[2]) + 1, (h % sh[2]) + 1>>
              ELSE <<(h \div (sh[2] * sh[3])) + 1, ((h \div sh[3]) % sh[2]) + 1, (h % sh[3]) + 1>>
Size(sh) == IF Len(sh) = 2 THEN sh[1] * sh[2] ELSE sh[1] * sh[2] * sh[3]
(* row-major position of a 0-based cell in an array of shape sh *)
At(sh, c) == IF Len(sh) = 2 THEN c[1] * sh[2] + c[2] + 1 ELSE (c[1] * sh[2] + c[2]) * sh[3] + c[3] + 1
Cell(q, t) == [a \in 1..D |-> q[a][t[a]]]
MetaOk(e) == e.meta.itime = e.itime /\ e.meta.time = e.itime /\ e.meta.n = Dims /\ e.meta.L = Dims
FieldClauses(e) ==
    LET q == Sels(e) sh == Shape_(q)
        fields == {k \in DOMAIN e.names : \E g \in 1..Size(sh) : e.got[k][g] # e.glob[k][At(Dims, Cell(q, Tup(sh, g)))]}
    IN (IF e.shape # sh \/ \E k \in DOMAIN e.names : Len(e.got[k]) # Size(sh) THEN {"the dump has another shape than the selection"}
        ELSE IF fields # {} THEN {"the dump of " \o e.names[k] \o " is not the selected part of the global field" : k \in fields} ELSE {})
       \cup (IF {e.has[i] : i \in DOMAIN e.has} # {e.names[i] : i \in DOMAIN e.names} THEN {"the file has other datasets than requested"} ELSE {})
       \cup (IF MetaOk(e) THEN {} ELSE {"step, time or sizes in the file are wrong"})
       \cup (IF e.same = 1 THEN {} ELSE {"the dump changed the simulation"})
GetClauses(e) ==
    LET zs == IF D = 2 THEN {0} ELSE {z \in 0..(Num(3) - 1) : Abs(z * U - e.zu) * 2 <= U \/ (z = Num(3) - 1 /\ e.zu > z * U)}
        full == [a \in 1..2 |-> Num(a)]
        ok(k) == \E z \in zs : \A g \in 1..(Num(1) * Num(2)) :
                     e.got[k][g] = IF D = 2 THEN e.glob[k][g] ELSE e.glob[k][At(Dims, <<Tup(full, g)[1] - 1, Tup(full, g)[2] - 1, z>>)]
    IN {"the gathered " \o e.names[k] \o " is not the global field" : k \in {k \in DOMAIN e.names : ~ok(k)}}
       \cup (IF e.same = 1 THEN {} ELSE {"gathering changed the simulation"})
-----------------------------------------------------------------------------
(* weight of a particle at x on cell c of axis a, all its periodic images *)
Axs(a, x, c) == IF Cfg.per[a] THEN Sh(U, x, c) + Sh(U, x, c + Num(a)) + Sh(U, x, c - Num(a)) ELSE Sh(U, x, c)
Near(a, x, c) == \/ Abs(x - c * U) < 2 * U \/ (Cfg.per[a] /\ (Abs(x - (c + Num(a)) * U) < 2 * U \/ Abs(x - (c - Num(a)) * U) < 2 * U))
Dens(ps, c) == LET S == {i \in DOMAIN ps : \A a \in 1..D : Near(a, ps[i][1 + a], c[a])}
                   W(i) == ps[i][1] * Axs(1, ps[i][2], c[1]) * Axs(2, ps[i][3], c[2]) * (IF D = 3 THEN Axs(3, ps[i][4], c[3]) ELSE 1)
               IN MapThenSumSet(W, S)
DensClauses(e) ==
    LET q == Sels(e) sh == Shape_(q)
    IN (IF e.shape # sh \/ Len(e.got) # Size(sh) THEN {"the density has another shape than the selection"}
        ELSE IF \E g \in 1..Size(sh) : e.got[g] # Dens(e.parts, Cell(q, Tup(sh, g))) THEN {"the density is not that of the species"} ELSE {})
       \cup (IF e.file = 0 \/ MetaOk(e) THEN {} ELSE {"step, time or sizes in the file are wrong"})
SameClauses(e) == IF e.a = e.b THEN {} ELSE {"requesting outputs changed " \o e.what}
-----------------------------------------------------------------------------
RowClauses(e) == (IF SameBag(e.live, e.got) THEN {} ELSE {"the dump is not the list of live particles"})
                 \cup (IF {e.has[i] : i \in DOMAIN e.has} # {e.names[i] : i \in DOMAIN e.names} THEN {"the file has other datasets than requested"} ELSE {})
                 \cup (IF e.meta.itime = e.itime /\ e.meta.time = e.itime THEN {} ELSE {"step or time in the file are wrong"})
                 \cup (IF e.same = 1 THEN {} ELSE {"the dump changed the simulation"})
(* domain of the particles, in u-ths from the centre of cell 0 *)
Lo(a) == IF Cfg.per[a] THEN -(U \div 2) ELSE Cfg.pml * U - U \div 2
Hi(a) == Num(a) * U - U \div 2 - (IF Cfg.per[a] THEN 0 ELSE Cfg.pml * U)
Inside(r) == \A a \in 1..D : r[a] >= Lo(a) /\ r[a] < Hi(a)
PatchOf(e, r) == [a \in 1..D |-> (2 * r[a] + U) \div (2 * U * e.n[a])]
(* rows are <<x per axis, w, ux, uy, uz, other attributes>> *)
LoadClauses(e) ==
    LET new == SelectSeq(e.after, LAMBDA p : p.old = 0)
        old == SelectSeq(e.after, LAMBDA p : p.old = 1)
        inside == SelectSeq(e.rows, Inside)
        u2(r) == r[D + 2] * r[D + 2] + r[D + 3] * r[D + 3] + r[D + 4] * r[D + 4]
    IN (IF SameBag([i \in DOMAIN new |-> new[i].row], inside) THEN {} ELSE {"the loaded particles are not those of the file that lie in the domain"})
       \cup (IF \A i \in DOMAIN new : new[i].patch = PatchOf(e, new[i].row) THEN {} ELSE {"a loaded particle is in the wrong patch"})
       \cup (IF \A i \in DOMAIN new : new[i].ig * new[i].ig * (e.m2 + u2(new[i].row)) = 2520 * 2520 THEN {} ELSE {"a loaded particle's Lorentz factor does not fit its momentum"})
       \cup (IF Cardinality({e.after[i].id : i \in DOMAIN e.after}) = Len(e.after) THEN {} ELSE {"identities of loaded particles are not unique"})
       \cup (IF SameBag([i \in DOMAIN old |-> <<old[i].patch, old[i].id, old[i].ig, old[i].row>>], [i \in DOMAIN e.before |-> <<e.before[i].patch, e.before[i].id, e.before[i].ig, e.before[i].row>>]) /\ e.same = 1 THEN {} ELSE {"loading changed something else"})
Clauses(e) == CASE e.op = "fields" -> FieldClauses(e) [] e.op = "get" -> GetClauses(e) [] e.op = "density" -> DensClauses(e)
                [] e.op = "same" -> SameClauses(e) [] e.op = "rows" -> RowClauses(e) [] e.op = "load" -> LoadClauses(e)
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
