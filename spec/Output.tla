-------------------------------- MODULE Output --------------------------------
(* What dumps contain (properties L01, L02, L03).                                     *)
(* An axis selection is <<0, k>> (index) or <<1, hasStart, start, hasStop, stop, step>>; *)
(* the selected cells are those array indexing selects, in order.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Wrap(k, n) == IF k < 0 THEN k + n ELSE k
Clip(k, n) == IF k < 0 THEN 0 ELSE IF k > n THEN n ELSE k
Sel(s, n) == IF s[1] = 0 THEN <<Wrap(s[2], n)>>
             ELSE LET a == IF s[2] = 1 THEN Clip(Wrap(s[3], n), n) ELSE 0
                      b == IF s[4] = 1 THEN Clip(Wrap(s[5], n), n) ELSE n
                      m == IF b <= a THEN 0 ELSE (b - a + s[6] - 1) \div s[6]
                  IN [i \in 1..m |-> a + (i - 1) * s[6]]
(* the part of a selection one patch (cells o..o+m-1) holds: first output position, cells *)
Share(q, o, m) == LET K == {i \in DOMAIN q : q[i] >= o /\ q[i] < o + m} IN K
-----------------------------------------------------------------------------
(* bags of rows *)
Count(s, r) == Cardinality({i \in DOMAIN s : s[i] = r})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
=============================================================================
