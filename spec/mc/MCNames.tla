------------------------------ MODULE MCNames ------------------------------
(* Registrations in batches.  The code numbers a wish past the largest number in use among the      *)
(* earlier species and the earlier wishes of the batch.  Variants: "count" numbers by how many there   *)
(* are, "batch" overlooks the earlier wishes, "wish" looks at what they wished, not at what they got,    *)
(* "suffix" overlooks that the wish may itself be someone's numbered name.                                *)
EXTENDS Species
CONSTANTS Wishes, N, Variant
VARIABLES names, batch, got, reqs
vars == <<names, batch, got, reqs>>
Rng(s) == {s[i] : i \in DOMAIN s}
Name(T, r) == LET n == Numbers(T, r)
              IN IF r \notin T /\ n = {} THEN r
                 ELSE IF Variant = "count" THEN Append(r, Cardinality({y \in T : y = r \/ IsNumbered(y, r)}))
                 ELSE IF Variant = "suffix" /\ Len(r) > 1 THEN r
                 ELSE Append(r, Next1(T, r))
Init == names = <<>> /\ batch = <<>> /\ got = <<>> /\ reqs = <<>>
Wish(r) == /\ Len(names) + Len(batch) < N
           /\ batch' = Append(batch, r) /\ UNCHANGED <<names, got, reqs>>
Seen == IF Variant = "batch" THEN Rng(names)
        ELSE IF Variant = "wish" THEN Rng(names) \cup Rng(SubSeq(batch, 1, Len(got)))
        ELSE Rng(names) \cup Rng(got)
Take == /\ batch # <<>> /\ Len(got) < Len(batch)
        /\ got' = Append(got, Name(Seen, batch[Len(got) + 1]))
        /\ UNCHANGED <<names, batch, reqs>>
End == /\ batch # <<>> /\ Len(got) = Len(batch)
       /\ names' = names \o got /\ reqs' = reqs \o batch
       /\ batch' = <<>> /\ got' = <<>>
Next == (got = <<>> /\ \E r \in Wishes : Wish(r)) \/ Take \/ End
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Unique == Cardinality(Rng(names)) = Len(names)
Kept == Fits({}, reqs, names)
W1 == {<<"a">>, <<"b">>, <<"a", 1>>, <<"a", 2>>, <<"a", 1, 1>>}
=============================================================================
