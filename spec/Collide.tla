------------------------------- MODULE Collide -------------------------------
(* Binary collisions inside one cell.                                                *)
(* Pairing: which live slots of a cell collide with which, and how strongly each       *)
(* particle is weighted.  A pair is <<slot, slot, d>>: both weights enter divided by d.  *)
(* Collision: a pair exchanges momentum (and energy), nothing else.                       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Max2(a, b) == IF a >= b THEN a ELSE b
(* the pairs a particle takes part in *)
OfPair(pairs, i) == {k \in DOMAIN pairs : pairs[k][1] = i \/ pairs[k][2] = i}
OfFirst(pairs, i) == {k \in DOMAIN pairs : pairs[k][1] = i}
OfSecond(pairs, i) == {k \in DOMAIN pairs : pairs[k][2] = i}
-----------------------------------------------------------------------------
(* within one species: everybody exactly once; with an odd number one particle is split   *)
(* into two halves, which meet two different partners                                       *)
IntraFaults(live, pairs, many) ==
    LET n == Cardinality(live)
        want == IF n < 2 THEN 0 ELSE (n + 1) \div 2
        odd == n % 2 = 1
        twice == {i \in live : Cardinality(OfPair(pairs, i)) = 2}
    IN IF Len(pairs) # want THEN {"number of pairs"}
       ELSE IF want = 0 THEN {}
       ELSE (IF \A k \in DOMAIN pairs : pairs[k][1] \in live /\ pairs[k][2] \in live THEN {} ELSE {"a partner is not a live particle of the cell"})
            \cup (IF \A k \in DOMAIN pairs : pairs[k][1] # pairs[k][2] THEN {} ELSE {"a particle collides with itself"})
            \cup (IF \A i \in live : OfPair(pairs, i) # {} THEN {} ELSE {"a live particle has no partner"})
            \cup (IF Cardinality(twice) = (IF odd THEN 1 ELSE 0) /\ \A i \in live \ twice : Cardinality(OfPair(pairs, i)) <= 1 THEN {} ELSE {"number of partners"})
            \cup (IF \A k \in DOMAIN pairs : pairs[k][3] = (IF odd /\ (pairs[k][1] \in twice \/ pairs[k][2] \in twice) THEN 2 ELSE 1) THEN {} ELSE {"share of a particle in a pair"})
            \cup (IF many = 2 * want - 1 THEN {} ELSE {"time correction"})
(* between two species: each of the more numerous species exactly once, the others in turn *)
InterFaults(l1, l2, pairs, many) ==
    LET n1 == Cardinality(l1)
        n2 == Cardinality(l2)
        want == IF n1 = 0 \/ n2 = 0 THEN 0 ELSE Max2(n1, n2)
        lo == IF n1 >= n2 THEN n1 \div n2 ELSE n2 \div n1
        hi == IF n1 >= n2 THEN (n1 + n2 - 1) \div n2 ELSE (n2 + n1 - 1) \div n1
        few(k) == IF n1 >= n2 THEN Cardinality(OfSecond(pairs, pairs[k][2])) ELSE Cardinality(OfFirst(pairs, pairs[k][1]))
    IN IF Len(pairs) # want THEN {"number of pairs"}
       ELSE IF want = 0 THEN {}
       ELSE (IF \A k \in DOMAIN pairs : pairs[k][1] \in l1 /\ pairs[k][2] \in l2 THEN {} ELSE {"a partner is not a live particle of the cell"})
            \cup (IF (IF n1 >= n2 THEN \A i \in l1 : Cardinality(OfFirst(pairs, i)) = 1 ELSE \A i \in l2 : Cardinality(OfSecond(pairs, i)) = 1) THEN {} ELSE {"a particle of the larger population does not collide exactly once"})
            \cup (IF (IF n1 >= n2 THEN \A i \in l2 : Cardinality(OfSecond(pairs, i)) \in lo..hi ELSE \A i \in l1 : Cardinality(OfFirst(pairs, i)) \in lo..hi) THEN {} ELSE {"the smaller population is not used evenly"})
            \cup (IF \A k \in DOMAIN pairs : pairs[k][3] = few(k) THEN {} ELSE {"share of a particle in a pair"})
            \cup (IF many = want THEN {} ELSE {"time correction"})
-----------------------------------------------------------------------------
(* Groups: the particles of a cell fall into groups that exchanged momentum only among      *)
(* themselves: pairs (one triple when odd), or one of the smaller population with its           *)
(* partners of the larger.  gs: sequence of sequences of particle numbers.                        *)
SetOf(s) == {s[i] : i \in DOMAIN s}
Partition(gs, S) == /\ UNION {SetOf(gs[k]) : k \in DOMAIN gs} = S
                    /\ \A k \in DOMAIN gs : Cardinality(SetOf(gs[k])) = Len(gs[k])
                    /\ FoldLeft(LAMBDA a, g : a + Len(g), 0, gs) = Cardinality(S)
IntraGroups(gs, S) == LET n == Cardinality(S)
                      IN /\ Partition(gs, S)
                         /\ Cardinality({k \in DOMAIN gs : Len(gs[k]) = 3}) = n % 2
                         /\ \A k \in DOMAIN gs : Len(gs[k]) \in {2, 3}
InterGroups(gs, A, B) == LET S == IF Cardinality(A) >= Cardinality(B) THEN B ELSE A
                             L == IF Cardinality(A) >= Cardinality(B) THEN A ELSE B
                             s == Cardinality(S)
                             l == Cardinality(L)
                         IN /\ Partition(gs, A \cup B)
                            /\ \A k \in DOMAIN gs : Cardinality(SetOf(gs[k]) \cap S) = 1 /\ Len(gs[k]) - 1 \in (l \div s)..((l + s - 1) \div s)
=============================================================================
