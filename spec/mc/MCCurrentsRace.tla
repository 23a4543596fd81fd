---- MODULE MCCurrentsRace ----
EXTENDS FieldsProto
MCG == [np |-> <<2, 1>>, per |-> <<TRUE, TRUE>>, n |-> <<2, 2>>, ng |-> 1]
MCRanks == {[p \in PatchCoords(<<2, 1>>) |-> p[1]]}
====
