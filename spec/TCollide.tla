------------------------------- MODULE TCollide -------------------------------
(* Recorded pairings and collisions (property K01).                                   *)
(*   intra, inter  l1, l2: live slots of the cell; pairs <<slot, slot, 1/share>>          *)
(*   cell  r: live particles <<species, weight, momentum changed, all else same, energy by  *)
(*         gamma after, p3, E before, p3, E after>> (normalised); on: enabled species pairs;   *)
(*         groups: particles that exchanged among themselves (witness, if one pair acts)          *)
(*   rest  digests of the free slots, and the particles of a patch, before and after                 *)
EXTENDS Collide, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Cfg == Traces[tr].cfg
-----------------------------------------------------------------------------
PairClauses(e) ==
    (IF e.op = "intra" THEN IntraFaults(ToSet(e.l1), e.pairs, e.many) ELSE InterFaults(ToSet(e.l1), ToSet(e.l2), e.pairs, e.many))
    \cup (IF e.same = 1 THEN {} ELSE {"the pairing changed the particles"})
-----------------------------------------------------------------------------
Num(e, s) == {i \in DOMAIN e.r : e.r[i][1] = s}
Acting(e) == {k \in DOMAIN e.on : LET a == e.on[k][1] b == e.on[k][2]
                                  IN IF a = b THEN Cardinality(Num(e, a)) >= 2 ELSE Num(e, a) # {} /\ Num(e, b) # {}}
Taking(e) == {i \in DOMAIN e.r : \E k \in Acting(e) : e.r[i][1] \in {e.on[k][1], e.on[k][2]}}
(* someone with another velocity to collide with *)
Partners(e, i) == {j \in DOMAIN e.r \ {i} : \E k \in Acting(e) : {e.on[k][1], e.on[k][2]} = {e.r[i][1], e.r[j][1]}}
Apart(e, i) == \A j \in Partners(e, i) : \E c \in 6..8 : e.r[i][c] * Cfg.species[e.r[j][1] + 1].m # e.r[j][c] * Cfg.species[e.r[i][1] + 1].m
Near(x, t) == x \in -t..t
Sum(e, S, c) == MapThenSumSet(LAMBDA i : e.r[i][c + 4] - e.r[i][c], S)
Kept(e, S) == \A c \in 6..9 : Near(Sum(e, S, c), Cardinality(S) + 2)
CellClauses(e) ==
    LET T == TLCEval(Taking(e))
        A == TLCEval(Acting(e))
        eq == \A i, j \in T : e.r[i][2] = e.r[j][2]
        S == ToSet(e.groups)
        a == e.on[CHOOSE k \in A : TRUE][1]
        b == e.on[CHOOSE k \in A : TRUE][2]
        wtot == FoldLeft(LAMBDA x, y : x + y[2], 0, e.r)
    IN (IF \A i \in DOMAIN e.r : e.r[i][4] = 1 THEN {} ELSE {"a collision changed something besides momenta"})
       \cup (IF \A i \in DOMAIN e.r \ T : e.r[i][3] = 0 THEN {} ELSE {"the momentum of a particle without partner changed"})
       \cup (IF \A i \in DOMAIN e.r : \A c \in 5..13 : e.r[i][c] # -777777777 THEN {} ELSE {"not a number"})
       \cup (IF \A i \in DOMAIN e.r : Near(e.r[i][5] - e.r[i][13], 2) THEN {} ELSE {"the Lorentz factor does not belong to the momentum"})
       \cup (IF T = {} \/ ~eq THEN {}
             ELSE (IF Kept(e, T) THEN {} ELSE {"momentum or energy of a cell not conserved"})
                  \cup (IF \A i \in T : e.r[i][3] = 1 \/ ~Apart(e, i) THEN {} ELSE {"a particle with a partner did not collide"})
                  \cup (IF Cardinality(A) # 1 \/ ~(\A i \in T : Apart(e, i)) THEN {}
                        ELSE IF /\ IF a = b THEN IntraGroups(e.groups, Num(e, a)) ELSE InterGroups(e.groups, Num(e, a), Num(e, b))
                                /\ \A k \in DOMAIN e.groups : Kept(e, SetOf(e.groups[k]))
                             THEN {} ELSE {"the particles did not collide in the right groups"}))
       \cup (IF T = {} \/ eq THEN {}
             ELSE LET lo == Min({e.r[i][2] : i \in T})
                  IN (IF \A i \in T : e.r[i][2] = lo /\ Apart(e, i) => e.r[i][3] = 1 THEN {} ELSE {"the lightest particle did not collide"})
                     \cup (IF Cardinality(T) # 2 \/ (\E i \in T : e.r[i][3] = 0) \/ Kept(e, T) THEN {} ELSE {"momentum or energy of a pair not conserved"}))
       \cup (IF e.dens \in {-1, wtot} THEN {} ELSE {"the density of the cell is not that of its particles"})
RestClauses(e) == (IF e.a = e.b THEN {} ELSE {"a free slot changed"})
                  \cup (IF e.ids[3] = 0 /\ e.ids[1] = e.ids[2] THEN {} ELSE {"a particle appeared or vanished"})
Clauses(e) == CASE e.op \in {"intra", "inter"} -> PairClauses(e) [] e.op = "cell" -> CellClauses(e) [] OTHER -> RestClauses(e)
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
