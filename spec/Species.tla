------------------------------ MODULE Species ------------------------------
(* Names and numbers of species, and species switched off (property S01).  A name is a word       *)
(* followed by numbers: <<"ion">>, <<"ion", 2>>.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
IsNumbered(x, r) == Len(x) = Len(r) + 1 /\ SubSeq(x, 1, Len(r)) = r
Numbers(T, r) == {x[Len(x)] : x \in {y \in T : IsNumbered(y, r)}}
(* what may become of the wish r when the names T are taken *)
Next1(T, r) == LET n == Numbers(T, r) IN IF n = {} THEN 1 ELSE Max(n) + 1
First1(T, r) == LET n == Numbers(T, r) IN CHOOSE k \in 1..(Cardinality(n) + 1) : k \notin n /\ \A j \in 1..(k - 1) : j \in n
Granted(T, r) ==
    IF r \in T THEN {Append(r, Next1(T, r)), Append(r, First1(T, r))}
    ELSE IF Numbers(T, r) = {} THEN {r}
    ELSE {r, Append(r, Next1(T, r)), Append(r, First1(T, r))}
(* names after the wishes w, one after the other *)
RECURSIVE Fits(_, _, _)
Fits(T, w, x) == IF w = <<>> THEN x = <<>>
                 ELSE x # <<>> /\ x[1] \in Granted(T, w[1]) /\ x[1] \notin T /\ Fits(T \cup {x[1]}, Tail(w), Tail(x))
On(N, off) == SelectSeq([i \in 1..N |-> i - 1], LAMBDA k : k \notin off)
=============================================================================
