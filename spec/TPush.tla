-------------------------------- MODULE TPush --------------------------------
(* The push of a species in one step along two paths from the same start (property Q01).  *)
(*   push   r: per live particle <<before, after by path a, after by path b>>, each             *)
(*          <<patch, x.., u3, 1/gamma, v..>> and after it optical depth, quantum parameter, event, share: positions and half moves in 2^24/8 cells,             *)
(*          momenta in 2^24 of the largest; ga, gb: digests of the free slots before/after;          *)
(*          ja, jb: rho and currents of every patch; mag: only a magnetic field acts;                   *)
(*          kick: momentum gained in a uniform electric field; free: nothing acts                         *)
(*   fields all fields at the end                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Cfg == Traces[tr].cfg
D == Len(Cfg.np)
Bad == -777777777
Near(a, b, t) == a - b \in -t..t
Tol(e) == 4 + 4 * e.t
-----------------------------------------------------------------------------
X == 2..(1 + D)
U == (2 + D)..(4 + D)
G == 5 + D
V(a) == 5 + D + a
Alike(p, q, t) == p[1] = q[1] /\ \A k \in 2..(9 + 2 * D) : Near(p[k], q[k], t)
(* half a move with the old velocity, half with the new one *)
Moved(o, p) == \A a \in 1..D : Near(p[1 + a], o[1 + a] + o[V(a)] + p[V(a)], 4)
Ratio(o, p) == Near(o[G], p[G], 4)
PushClauses(e) ==
    LET t == Tol(e)
        R == DOMAIN e.r
        gone == {i \in R : e.r[i] = <<>>}
        K == R \ gone
    IN (IF gone = {} THEN {} ELSE {"a particle appeared or vanished during the push"})
       \cup (IF \A i \in K : \A w \in 1..3 : \A k \in DOMAIN e.r[i][w] : e.r[i][w][k] # Bad THEN {} ELSE {"not a number"})
       \cup (IF \A i \in K : Alike(e.r[i][2], e.r[i][3], t) THEN {} ELSE {"the two paths push a particle differently"})
       \cup (IF \A i \in K : \A w \in 2..3 : Moved(e.r[i][1], e.r[i][w]) THEN {} ELSE {"a particle did not move half with its old and half with its new velocity"})
       \cup (IF e.free = 1 => \A i \in K : \A w \in 2..3 : \A k \in U : e.r[i][1][k] = e.r[i][w][k] THEN {} ELSE {"a free particle changed its momentum"})
       \cup (IF e.mag = 1 => \A i \in K : \A w \in 2..3 : Ratio(e.r[i][1], e.r[i][w]) THEN {} ELSE {"a magnetic field did work"})
       \cup (IF e.kick # <<>> => \A i \in K : \A w \in 2..3 : \A k \in 1..3 : Near(e.r[i][w][1 + D + k], e.r[i][1][1 + D + k] + e.kick[k], 4) THEN {} ELSE {"wrong gain in a uniform electric field"})
       \cup (IF e.ga[1] = e.ga[2] /\ e.gb[1] = e.gb[2] THEN {} ELSE {"a dead particle was advanced"})
       \cup (IF Len(e.ja) = Len(e.jb) /\ \A p \in DOMAIN e.ja : \A c \in 1..4 : Len(e.ja[p][c]) = Len(e.jb[p][c]) /\ \A k \in DOMAIN e.ja[p][c] : Near(e.ja[p][c][k], e.jb[p][c][k], t) /\ e.ja[p][c][k] # Bad
             THEN {} ELSE {"the two paths deposit differently"})
FieldClauses(e) ==
    (IF e.n[1] = e.n[2] THEN {} ELSE {"a species was not pushed on one path"})
    \cup (IF \A p \in DOMAIN e.a : \A c \in 1..6 : \A k \in DOMAIN e.a[p][c] : Near(e.a[p][c][k], e.b[p][c][k], 64) THEN {} ELSE {"the fields end differently on the two paths"})
Clauses(e) == IF e.op = "push" THEN PushClauses(e) ELSE FieldClauses(e)
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
