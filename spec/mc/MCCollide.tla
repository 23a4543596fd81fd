------------------------------ MODULE MCCollide ------------------------------
(* The pairing walk of one cell, for every arrangement of live and dead slots and every  *)
(* shuffle, and the momentum exchange along it.  Variants: "count" takes dead slots for     *)
(* partners' number, "open" does not close the odd ring, "cut" lets the smaller side end.      *)
EXTENDS Collide
CONSTANTS N1, N2, Kind, Variant
VARIABLES live1, live2, perm, ip1, ip2, k, pairs, u1, u2, pc
vars == <<live1, live2, perm, ip1, ip2, k, pairs, u1, u2, pc>>
Slots1 == 1..N1
Slots2 == 1..N2
Perms(S) == {f \in [S -> S] : \A a, b \in S : a # b => f[a] # f[b]}
n1 == Cardinality(live1)
n2 == Cardinality(live2)
First == IF Kind = "intra" THEN TRUE ELSE n1 >= n2     \* side 1 is the shuffled one
Many == IF Kind = "intra" THEN (IF n1 < 2 THEN 0 ELSE 2 * ((n1 + 1) \div 2) - 1) ELSE Max2(n1, n2)
Want == IF Kind = "intra" THEN (IF (IF Variant = "count" THEN N1 ELSE n1) < 2 THEN 0 ELSE ((IF Variant = "count" THEN N1 ELSE n1) + 1) \div 2)
        ELSE IF n1 = 0 \/ n2 = 0 THEN 0 ELSE Max2(n1, n2)
Init == /\ live1 \in SUBSET Slots1
        /\ live2 \in (IF Kind = "intra" THEN {{}} ELSE SUBSET Slots2)
        /\ perm \in Perms(IF First THEN Slots1 ELSE Slots2)
        /\ ip1 = 0 /\ ip2 = 0 /\ k = 0 /\ pairs = <<>>
        /\ u1 = [i \in Slots1 |-> i] /\ u2 = [i \in Slots2 |-> -i]
        /\ pc = "walk"
(* the first position in range that satisfies P; the old value if there is none *)
Seek(R, P(_), old) == LET S == {j \in R : P(j)} IN IF S = {} THEN old ELSE Min(S)
IntraStep ==
    LET a == Seek((ip2 + 1)..N1, LAMBDA j : perm[j] \in live1, ip1)
        last == n1 % 2 = 1 /\ k = Want - 1 /\ Variant # "open"
        b == IF last THEN Seek(1..(a - 1), LAMBDA j : perm[j] \in live1, ip2) ELSE Seek((a + 1)..N1, LAMBDA j : perm[j] \in live1, ip2)
        w == IF n1 % 2 = 1 /\ (k = 0 \/ k = Want - 1) THEN 2 ELSE 1
    IN /\ ip1' = a /\ ip2' = b
       /\ a # 0 /\ b # 0
       /\ pairs' = Append(pairs, <<perm[a], perm[b], w>>)
       /\ \E d \in {1, 2} : u1' = [u1 EXCEPT ![perm[a]] = @ + d, ![perm[b]] = @ - d]
       /\ UNCHANGED u2
InterStep ==
    LET big == IF First THEN live1 ELSE live2
        small == IF First THEN live2 ELSE live1
        NB == IF First THEN N1 ELSE N2
        NS == IF First THEN N2 ELSE N1
        nb == Cardinality(big)
        ns == Cardinality(small)
        ib == IF First THEN ip1 ELSE ip2
        is0 == IF First THEN ip2 ELSE ip1
        is == IF k % ns = 0 /\ Variant # "cut" THEN 0 ELSE is0
        b == Seek((ib + 1)..NB, LAMBDA j : perm[j] \in big, ib)
        s == Seek((is + 1)..NS, LAMBDA j : j \in small, is)
        w == IF k % ns < nb % ns THEN nb \div ns + 1 ELSE nb \div ns
    IN /\ ip1' = IF First THEN b ELSE s
       /\ ip2' = IF First THEN s ELSE b
       /\ pairs' = Append(pairs, IF First THEN <<perm[b], s, w>> ELSE <<s, perm[b], w>>)
       /\ \E d \in {1, 2} : /\ u1' = [u1 EXCEPT ![IF First THEN perm[b] ELSE s] = @ + d]
                            /\ u2' = [u2 EXCEPT ![IF First THEN s ELSE perm[b]] = @ - d]
Walk == /\ pc = "walk"
        /\ k < Want
        /\ k' = k + 1
        /\ IF Kind = "intra" THEN IntraStep ELSE InterStep
        /\ UNCHANGED <<live1, live2, perm, pc>>
Done == pc = "walk" /\ k = Want /\ pc' = "done" /\ UNCHANGED <<live1, live2, perm, ip1, ip2, k, pairs, u1, u2>>
Spec == Init /\ [][Walk \/ Done]_vars
-----------------------------------------------------------------------------
Pairing == pc = "done" => (IF Kind = "intra" THEN IntraFaults(live1, pairs, Many) ELSE InterFaults(live1, live2, pairs, Many)) = {}
(* nothing is stuck before all pairs are made *)
Complete == (pc = "walk" /\ k < Want) => ENABLED Walk
V1(i) == u1[i]
V2(i) == u2[i]
Total == (IF N1 = 0 THEN 0 ELSE MapThenSumSet(V1, Slots1)) + MapThenSumSet(V2, Slots2)
Conserved == Total = MapThenSumSet(LAMBDA i : i, Slots1) - MapThenSumSet(LAMBDA i : i, Slots2)
Others == /\ \A i \in Slots1 \ live1 : u1[i] = i
          /\ \A i \in Slots2 \ live2 : u2[i] = -i
=============================================================================
