---- MODULE MCCurrents ----
EXTENDS FieldsProto
MCG == [np |-> <<2, 2>>, per |-> <<TRUE, FALSE>>, n |-> <<2, 1>>, ng |-> 1]
MCRanks == {m \in [PatchCoords(<<2, 2>>) -> 0..2] : m[<<0,0>>] = 0 /\ m[<<1,0>>] \in {0,1}}
====
