-------------------------------- MODULE TShape --------------------------------
(* Recorded deposits and interpolations (properties O01, P01), one patch per event.  *)
(* Positions are in u-ths of a cell from the centre of cell 0; arrays are over cells   *)
(* -g..n-1+g per axis, row-major.                                                          *)
(*   deposit  parts: live particles <<w q, v3, x0 per axis, x1 per axis>> of one species;     *)
(*            b, a: rho and the three currents before and after (normalised integers)          *)
(*   interp   f: the six fields, parts: <<x per axis, six values>>; same: nothing else moved     *)
EXTENDS Shape, FiniteSetsExt, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Cfg == Traces[tr].cfg
D == Len(Cfg.np)
U == Cfg.u
G == Cfg.ng
Num(a) == Cfg.n[a] + 2 * G
Size == IF D = 2 THEN Num(1) * Num(2) ELSE Num(1) * Num(2) * Num(3)
CellOf(g) == LET h == g - 1 IN IF D = 2 THEN <<(h \div Num(2)) - G, (h % Num(2)) - G>>
             ELSE <<(h \div (Num(2) * Num(3))) - G, ((h \div Num(3)) % Num(2)) - G, (h % Num(3)) - G>>
Flat(c) == IF D = 2 THEN (c[1] + G) * Num(2) + c[2] + G + 1 ELSE ((c[1] + G) * Num(2) + c[2] + G) * Num(3) + c[3] + G + 1
-----------------------------------------------------------------------------
Tab(p) == TLCEval([a \in 1..D |-> Axis(U, p[2 + a], p[2 + D + a], -G - 1, Cfg.n[a] + G)])
(* particles that may reach cell c *)
Reach(ps, c) == IF D = 2 THEN {i \in DOMAIN ps : ps[i][3] - c[1] * U \in -3*U..3*U /\ ps[i][4] - c[2] * U \in -3*U..3*U}
                ELSE {i \in DOMAIN ps : ps[i][3] - c[1] * U \in -3*U..3*U /\ ps[i][4] - c[2] * U \in -3*U..3*U /\ ps[i][5] - c[3] * U \in -3*U..3*U}
(* what they add there: rho and the three currents *)
Added(ps, ts, c) ==
    LET S == Reach(ps, c)
        R(i) == ps[i][1] * (IF D = 2 THEN Rho2(ts[i], c) ELSE Rho3(ts[i], c))
        C(i, k) == ps[i][1] * (IF D = 2 THEN (IF k = 3 THEN ps[i][2] ELSE 1) * J2(ts[i], c)[k] ELSE J3(ts[i], c)[k])
        C1(i) == C(i, 1) C2(i) == C(i, 2) C3(i) == C(i, 3)
    IN IF S = {} THEN <<0, 0, 0, 0>> ELSE <<MapThenSumSet(R, S), MapThenSumSet(C1, S), MapThenSumSet(C2, S), MapThenSumSet(C3, S)>>
DepClauses(e) ==
    LET ts == TLCEval([i \in DOMAIN e.parts |-> Tab(e.parts[i])])
        ps == TLCEval(e.parts)
        ok(g) == LET x == Added(ps, ts, CellOf(g)) IN {k \in 1..4 : e.a[k][g] - e.b[k][g] # x[k]}
        names == <<"charge", "x current", "y current", "z current">>
    IN {names[k] \o " is not the sum of the particles' shape deposits" : k \in UNION {ok(g) : g \in 1..Size}}
-----------------------------------------------------------------------------
(* component: which axes are shifted by half a cell *)
Half == IF D = 2 THEN << <<1, 0>>, <<0, 1>>, <<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>> >>
        ELSE << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 0>> >>
Base(x) == (2 * x + U) \div (2 * U)
Offs == [1..D -> -1..1]
RECURSIVE Prod(_, _, _)
Prod(x, c, a) == IF a = 0 THEN 1 ELSE Sh(U, x[a], c[a]) * Prod(x, c, a - 1)
Value(e, p, k) == LET x == [a \in 1..D |-> p[a] - Half[k][a] * (U \div 2)]
                      T(o) == LET c == [a \in 1..D |-> Base(x[a]) + o[a]] IN Prod(x, c, D) * e.f[k][Flat(c)]
                  IN MapThenSumSet(T, Offs)
IntClauses(e) ==
    LET names == <<"ex", "ey", "ez", "bx", "by", "bz">>
    IN {names[k] \o " at a particle is not the weighted average" : k \in {k \in 1..6 : \E i \in DOMAIN e.parts : e.parts[i][D + k] # Value(e, e.parts[i], k)}}
       \cup (IF e.same = 1 THEN {} ELSE {"interpolation changed something else"})
Clauses(e) == IF e.op = "deposit" THEN DepClauses(e) ELSE IntClauses(e)
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
