---------------------------- MODULE MaxwellProto ----------------------------
(* Patches with one guard cell advance E and B by themselves and exchange guards    *)
(* after every half update; each works at its own pace.  The solution must be that   *)
(* of the undivided grid.  One axis, transverse components (ey, bz); every initial     *)
(* unit impulse (the update is linear).  Variant leaves out one of the exchanges.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NP, N, Halves, Variant
VARIABLES src, loc, ph, mail, glob
vars == <<src, loc, ph, mail, glob>>
NG == NP * N
Patches == 0..(NP - 1)
(* half updates in the order of a step: E B (particles) B E *)
Kind(h) == IF (h % 4) \in {0, 3} THEN "e" ELSE "b"
(* mailbox entry: the interiors a patch had after its h-th half update *)
Init == /\ src \in [c : {"e", "b"}, g : 0..(NG - 1)]
        /\ loc = [p \in Patches |-> [c \in {"e", "b"} |-> [i \in -1..N |->
               IF c = src.c /\ (p * N + i + NG) % NG = src.g THEN 1 ELSE 0]]]
        /\ ph = [p \in Patches |-> [h |-> 0, sync |-> TRUE]]
        /\ mail = [p \in Patches |-> <<>>]
        /\ glob = <<[c \in {"e", "b"} |-> [g \in 0..(NG - 1) |-> IF c = src.c /\ g = src.g THEN 1 ELSE 0]]>>
Upd(f, k, i) == IF k = "e" THEN f["e"][i] - (f["b"][i] - f["b"][i - 1]) ELSE f["b"][i] - (f["e"][i + 1] - f["e"][i])
GUpd(f, k, g) == IF k = "e" THEN f["e"][g] - (f["b"][g] - f["b"][(g - 1 + NG) % NG]) ELSE f["b"][g] - (f["e"][(g + 1) % NG] - f["e"][g])
Half(p) == /\ ph[p].sync /\ ph[p].h < Halves
           /\ LET k == Kind(ph[p].h)
                  new == [loc[p] EXCEPT ![k] = [i \in -1..N |-> IF i \in 0..(N - 1) THEN Upd(loc[p], k, i) ELSE loc[p][k][i]]]
              IN /\ loc' = [loc EXCEPT ![p] = new]
                 /\ mail' = [mail EXCEPT ![p] = Append(@, new[k])]
                 /\ ph' = [ph EXCEPT ![p] = [h |-> @.h + 1, sync |-> (Variant = "nosync_b" /\ k = "b") \/ (Variant = "nosync_e" /\ k = "e")]]
                 /\ glob' = IF Len(glob) = ph[p].h + 1
                            THEN Append(glob, [glob[Len(glob)] EXCEPT ![k] = [g \in 0..(NG - 1) |-> GUpd(glob[Len(glob)], k, g)]]) ELSE glob
           /\ UNCHANGED src
Left(p) == (p + NP - 1) % NP
Right(p) == (p + 1) % NP
Sync(p) == LET h == ph[p].h k == Kind(h - 1)
           IN /\ ~ph[p].sync
              /\ Len(mail[Left(p)]) >= h /\ Len(mail[Right(p)]) >= h
              /\ loc' = [loc EXCEPT ![p][k] = [i \in -1..N |-> IF i = -1 THEN mail[Left(p)][h][N - 1]
                                                               ELSE IF i = N THEN mail[Right(p)][h][0] ELSE @[i]]]
              /\ ph' = [ph EXCEPT ![p].sync = TRUE]
              /\ UNCHANGED <<src, mail, glob>>
Next == \E p \in Patches : Half(p) \/ Sync(p)
Spec == Init /\ [][Next]_vars
Same == \A p \in Patches, c \in {"e", "b"}, i \in 0..(N - 1) : loc[p][c][i] = glob[ph[p].h + 1][c][p * N + i]
Guards == \A p \in Patches, c \in {"e", "b"} : ph[p].sync =>
            loc[p][c][-1] = glob[ph[p].h + 1][c][(p * N - 1 + NG) % NG] /\ loc[p][c][N] = glob[ph[p].h + 1][c][((p + 1) * N) % NG]
=============================================================================
