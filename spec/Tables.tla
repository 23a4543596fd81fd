------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Who holds which patch and who knows it.  Patches keep a permanent index;  *)
(* a window shift renames coordinates (the column that fell behind becomes    *)
(* the new front column), a rebalance moves patches between the processes'     *)
(* lists (leavers are popped, arrivals appended).  After either the tables     *)
(* are rebuilt: neighbour index from the coordinates gathered from all         *)
(* processes, neighbour rank from the gathered ownership, neighbour slot from   *)
(* the own list.                                                              *)
(***************************************************************************)
EXTENDS Grid, TLC
CONSTANTS NP, Per, NRank, MaxOps
Coords == PatchCoords(NP)
D == Len(NP)
N == Cardinality(Coords)
Idx == 0..(N - 1)
Ranks == 0..(NRank - 1)
InitIdx(c) == IF D = 2 THEN c[1] + c[2] * NP[1] ELSE c[1] + c[2] * NP[1] + c[3] * NP[1] * NP[2]
VARIABLES coord, lists, tabs, ops
vars == <<coord, lists, tabs, ops>>
OwnerIn(ls, i) == CHOOSE r \in Ranks : \E k \in DOMAIN ls[r] : ls[r][k] = i
SlotIn(s, i) == CHOOSE k \in DOMAIN s : s[k] = i
Build(co, ls) ==
    [i \in Idx |-> [d \in Dirs(D) |->
        LET q == Adj(NP, Per, co[i], d)
        IN IF q = <<>> THEN <<-1, -1, -1>>
           ELSE LET j == CHOOSE x \in Idx : co[x] = q
                    me == OwnerIn(ls, i) ow == OwnerIn(ls, j)
                IN <<j, IF ow = me THEN -1 ELSE ow, IF ow = me THEN SlotIn(ls[me], j) ELSE -1>>]]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Init == /\ coord = [i \in Idx |-> CHOOSE c \in Coords : InitIdx(c) = i]
        /\ \E m \in [Idx -> Ranks] : /\ \A r \in Ranks : \E i \in Idx : m[i] = r
                                     /\ lists = [r \in Ranks |-> Sorted({i \in Idx : m[i] = r})]
        /\ tabs = Build(coord, lists)
        /\ ops = 0
Shift(s) ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ coord' = [i \in Idx |-> [coord[i] EXCEPT ![1] = (@ - s) % NP[1]]]
    /\ tabs' = Build(coord', lists) /\ UNCHANGED lists
Balance(m) ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ \A r \in Ranks : \E i \in Idx : m[i] = r
    /\ lists' = [r \in Ranks |-> SelectSeq(lists[r], LAMBDA i : m[i] = r) \o Sorted({i \in Idx : m[i] = r /\ OwnerIn(lists, i) # r})]
    /\ tabs' = Build(coord, lists') /\ UNCHANGED coord
Next == (\E s \in {1, -1} : Shift(s)) \/ (\E m \in [Idx -> Ranks] : Balance(m))
Spec == Init /\ [][Next]_vars
OwnedOnce == \A i \in Idx : Cardinality({<<r, k>> \in UNION {{<<r, k>> : k \in DOMAIN lists[r]} : r \in Ranks} : lists[r][k] = i}) = 1
Rectangular == {coord[i] : i \in Idx} = Coords
NobodyEmpty == \A r \in Ranks : lists[r] # <<>>
Mutual == \A i \in Idx : \A d \in Dirs(D) : LET t == tabs[i][d] IN t[1] >= 0 =>
             /\ tabs[t[1]][Opp(d)][1] = i
             /\ (t[2] = -1) = (tabs[t[1]][Opp(d)][2] = -1)
             /\ t[2] = -1 => /\ lists[OwnerIn(lists, i)][t[3]] = t[1]
             /\ t[2] # -1 => t[2] = OwnerIn(lists, t[1])
Edge == \A i \in Idx : \A d \in Dirs(D) : (tabs[i][d][1] < 0) =
           (\E a \in 1..D : ~Per[a] /\ (coord[i][a] + d[a] < 0 \/ coord[i][a] + d[a] >= NP[a]))
=============================================================================
