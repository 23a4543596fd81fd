------------------------------ MODULE TWindow ------------------------------
(* A moving window in a running simulation (property M01).                                *)
(*   win    t: step; b, a: patches before and after the call: c column and rows, o origins      *)
(*          and extents in cells (last one relative only), oy other origins, f, psi, sp digests     *)
(*          of fields, absorbing layers and particles, fz, pz: all zero, pm absorbing layers;       *)
(*          inj: per species the content of the new patches                                          *)
(*   half   fields of the whole window after the call and after the first half step                     *)
(*   step   srt: per patch and species the live particles of every column and the sizes of the buckets; *)
(*          r: live particles of every species after the push <<id, cell, patch>>, z: at the end       *)
(*          of the step; m: charge and its moments on the grid and of the particles; g: differing       *)
(*          guard points at the end                                                                       *)
EXTENDS Window, Load, Maxwell, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, acc, off
vars == <<tr, l, acc, off>>
Cfg == Traces[tr].cfg
D == Len(Cfg.np)
NPX == Cfg.np[1]
NX == Cfg.n[1]
U == 64
Active(t) == t >= Cfg.first
V(t) == Cfg.v[((t - Cfg.first) % Len(Cfg.v)) + 1]
Ev == Traces[tr].ev[l]
ShiftOf(e) == IF e.op = "win" /\ Active(e.t) THEN Shift(U, acc, V(e.t)) ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
-----------------------------------------------------------------------------
Val(f, c) == IF f.kind = "const" THEN f.v ELSE (((f.a * c[1] + f.b * c[2] + f.c * c[3]) % f.m) - f.o) * f.s
Injects(t) == Cfg.inject = 1 /\ (Cfg.stop < 0 \/ t < Cfg.stop)
Count(s, c) == IF s.has = 0 THEN 0 ELSE Loaded(Val(s.dens, c), s.dmin, Val(s.ppc, c))
(* cells of the new column outside absorbing layers *)
NewCells(o, s) == LET x0 == IF s = 1 THEN (o + NPX - 1) * NX ELSE o * NX
                  IN {<<i, j, k>> : i \in x0..(x0 + NX - 1), j \in Cfg.lo[2]..(Cfg.hi[2] - 1), k \in Cfg.lo[3]..(Cfg.hi[3] - 1)}
Beside(o, s, c) == LET x0 == IF s = 1 THEN (o + NPX - 1) * NX ELSE o * NX IN c[1] \in x0..(x0 + NX - 1) /\ \E a \in 2..3 : ~(c[a] \in Cfg.lo[a]..(Cfg.hi[a] - 1))
InjClauses(e, o, s) ==
    UNION {LET q == e.inj[k]
               sp == Cfg.species[k]
               got == {q.cells[i][1] : i \in DOMAIN q.cells}
               at(c) == q.cells[CHOOSE i \in DOMAIN q.cells : q.cells[i][1] = c]
               want == IF Injects(e.t) THEN {c \in NewCells(o, s) : Count(sp, c) > 0} ELSE {}
               both == got \cap want
           IN (IF \A c \in got \ want : Injects(e.t) /\ Beside(o, s, c) THEN {} ELSE {"particles in the new region where none belong"})
              \cup (IF want \subseteq got THEN {} ELSE {"the new region was not filled"})
              \cup (IF \A c \in both : at(c)[2] = Count(sp, c) /\ at(c)[3] = at(c)[4] /\ at(c)[3] = Share(Val(sp.dens, c), Val(sp.ppc, c)) THEN {} ELSE {"wrong content of a new cell"})
              \cup (IF q.rest = q.n THEN {} ELSE {"a new particle is not at rest"})
              \cup (IF q.fresh = q.n THEN {} ELSE {"a new particle has an old identity"})
           : k \in DOMAIN e.inj}
WinClauses(e) ==
    LET s == ShiftOf(e)
        o == off + s
        I == {e.b[i].idx : i \in DOMAIN e.b}
        J == {e.a[i].idx : i \in DOMAIN e.a}
        B == [x \in I |-> e.b[CHOOSE i \in DOMAIN e.b : e.b[i].idx = x]]
        A == [x \in J |-> e.a[CHOOSE i \in DOMAIN e.a : e.a[i].idx = x]]
        new == {x \in I : s # 0 /\ Recycled(NPX, B[x].c[1], s)}
        act == Active(e.t)
        NotX(p) == SelectSeq(p, LAMBDA m : m # "XMIN" /\ m # "XMAX" /\ m # "Xmin" /\ m # "Xmax")
    IN IF I # J \/ Cardinality(I) # Len(e.b) \/ Len(e.a) # Len(e.b) THEN {"patches appeared or vanished"} ELSE
       (IF \A x \in I : A[x].c = [B[x].c EXCEPT ![1] = Column(NPX, @, s)] THEN {} ELSE {"wrong columns after the call"})
       \cup (IF \A x \in I : LET X == (o + A[x].c[1]) * NX p == A[x].o
                             IN /\ p[1] = X /\ p[2] = X /\ p[3] = X /\ p[4] = X + NX - 1 /\ (act => p[5] = X /\ p[6] = X + NX - 1)
                                /\ p[7] - B[x].o[7] = p[1] - B[x].o[1] /\ A[x].oy = B[x].oy
             THEN {} ELSE {"wrong coordinates after the call"})
       \cup (IF \A x \in I : A[x].pm = IF act THEN NotX(B[x].pm) ELSE B[x].pm THEN {} ELSE {"wrong absorbing layers after the call"})
       \cup (IF \A x \in I \ new : A[x].f = B[x].f THEN {} ELSE {"fields of a patch that stays changed"})
       \cup (IF \A x \in I \ new : A[x].psi = B[x].psi THEN {} ELSE {"absorbing layers of a patch that stays changed"})
       \cup (IF \A x \in I \ new : A[x].sp = B[x].sp THEN {} ELSE {"particles of a patch that stays changed"})
       \cup (IF \A x \in new : A[x].fz = 1 /\ A[x].pz = 1 THEN {} ELSE {"the new region has fields"})
       \cup (IF s = 0 THEN {} ELSE InjClauses(e, o, s))
-----------------------------------------------------------------------------
InX(t, x) == IF Active(t) THEN x \in (off * NX)..(off * NX + Cfg.N[1] - 1) ELSE x \in Cfg.pml..(Cfg.N[1] - Cfg.pml - 1)
Wrap(c) == [a \in 1..3 |-> IF a > 1 /\ a <= D /\ Cfg.per[a] THEN c[a] % Cfg.N[a] ELSE c[a]]
Inside(t, c) == InX(t, c[1]) /\ \A a \in 2..3 : c[a] \in Cfg.lo[a]..(Cfg.hi[a] - 1)
Home(c) == [a \in 1..3 |-> IF a = 1 THEN (c[1] \div NX) - off ELSE IF a <= D THEN c[a] \div Cfg.n[a] ELSE 0]
StepClauses(e) ==
    UNION {LET R == {<<e.r[k][i][1], Wrap(e.r[k][i][2])>> : i \in DOMAIN e.r[k]}
               Z == {<<e.z[k][i][1], e.z[k][i][2]>> : i \in DOMAIN e.z[k]}
               W == {x \in R : Inside(e.t, x[2])}
           IN (IF Cardinality(Z) = Len(e.z[k]) THEN {} ELSE {"a particle is held twice"})
              \cup (IF W \subseteq Z THEN {} ELSE {"a particle inside the window was lost or moved"})
              \cup (IF Z \subseteq W THEN {} ELSE {"a particle outside the window was kept"})
              \cup (IF \A i \in DOMAIN e.z[k] : e.z[k][i][3] = Home(e.z[k][i][2]) THEN {} ELSE {"a particle is kept by the wrong patch"})
           : k \in DOMAIN e.r}
    \cup (IF \A i \in 1..(D + 1) : e.m[1][i] - e.m[2][i] \in -2..2 THEN {} ELSE {"the charge is deposited in the wrong place"})
    \cup (IF \A i \in DOMAIN e.srt : LET n == e.srt[i][1] z == e.srt[i][2] m == Len(n)
                                    IN Len(z) = m /\ ((\A c \in 1..m : z[c] >= n[c]) \/ (\A c \in 1..m : z[m + 1 - c] >= n[c]))
          THEN {} ELSE {"particles are sorted into the wrong columns"})
    \cup (IF e.g = 0 THEN {} ELSE {"guards do not show the neighbouring patch"})
-----------------------------------------------------------------------------
Near(x) == x \in -40..40
Inner(t) == LET lo == [a \in 1..3 |-> IF a = 1 THEN (IF Active(t) THEN 1 ELSE Cfg.pml + 2) ELSE IF a > D \/ Cfg.per[a] THEN 0 ELSE Cfg.pml + 2]
                hi == [a \in 1..3 |-> Cfg.N[a] - lo[a]]
            IN {g \in 1..(Cfg.N[1] * Cfg.N[2] * Cfg.N[3]) : \A a \in 1..3 : Pos(Cfg.N, g)[a] >= lo[a] /\ Pos(Cfg.N, g)[a] < hi[a]}
HalfClauses(e) ==
    (IF \A g \in Inner(e.t), c \in 1..3 : Near(8 * (e.m1[c][g] - e.s[c][g]) - DE(Cfg.N, Cfg.K, e.s, c, g)) THEN {} ELSE {"first half step of E in the window"})
    \cup (IF \A g \in Inner(e.t), c \in 4..6 : Near(8 * (e.m1[c][g] - e.s[c][g]) - DB(Cfg.N, Cfg.K, e.m1, c, g)) THEN {} ELSE {"first half step of B in the window"})
Clauses(e) == IF e.op = "win" THEN WinClauses(e) ELSE IF e.op = "half" THEN HalfClauses(e) ELSE StepClauses(e)
Init == tr \in DOMAIN Traces /\ l = 1 /\ acc = Acc0(U) /\ off = 0
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Ev bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ off' = off + ShiftOf(e)
              /\ acc' = IF e.op = "win" /\ Active(e.t) THEN Rest(U, acc, V(e.t)) ELSE acc
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
