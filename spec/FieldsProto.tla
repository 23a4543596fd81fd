----------------------------- MODULE FieldsProto -----------------------------
(***************************************************************************)
(* How the code performs one current synchronisation or guard exchange.     *)
(* Mode "cur": threads take the local patches in any order and fold the      *)
(* neighbours' guard strips into their interior (clearing them); then the    *)
(* strips towards patches of other ranks are packed (cleared) and sent; then  *)
(* threads take the patches in any order and add the received strips one      *)
(* after the other.  With ByStrip = TRUE threads take single strips instead   *)
(* (the accumulation is a read followed by a write): that variant loses       *)
(* additions and is refuted.                                                 *)
(* Mode "guard": strips of interior cells are copied / sent to guards.        *)
(* Property: when all ranks are done the arrays are what Fields.tla says.     *)
(***************************************************************************)
EXTENDS Fields, TLC

CONSTANTS G, RankMaps, Mode, ByStrip
Patches == PatchCoords(G.np)
D == Len(G.np)
VARIABLES rk, arr, arr0, phase, todo, msgs, reg
vars == <<rk, arr, arr0, phase, todo, msgs, reg>>
Ranks == {rk[p] : p \in Patches}
Mine(r) == {p \in Patches : rk[p] = r}
Nb(p, d) == Adj(G.np, G.per, p, d)
IsLocal(p, d) == Nb(p, d) # <<>> /\ rk[Nb(p, d)] = rk[p]
IsRemote(p, d) == Nb(p, d) # <<>> /\ rk[Nb(p, d)] # rk[p]

Range3(a, d) == IF d = 0 THEN (G.ng + 1)..(G.ng + G.n[a])
                ELSE IF d < 0 THEN 1..G.ng ELSE (G.ng + G.n[a] + 1)..(2 * G.ng + G.n[a])
(* guard strip of a patch in direction d *)
GStrip(d) == {k \in Cells(G) : \A a \in 1..D : k[a] \in Range3(a, d[a])}
(* where guard cell k of direction d lies in the neighbour's interior *)
Shift(k, d) == [a \in 1..D |-> k[a] - d[a] * G.n[a]]

(* start values: distinct and far from additive coincidences *)
Val(p, k) == ((p[1] * 7 + p[2] * 13 + 1) * 1000003 + k[1] * 1009 + k[2] * 32003 + k[1] * k[2] * 523) % 1000000
Tuple(k) == <<k[1], k[2]>>

Init == /\ rk \in RankMaps
        /\ arr = [p \in Patches |-> [k \in Cells(G) |-> Val(p, k)]]
        /\ arr0 = arr
        /\ phase = [r \in {rk[p] : p \in Patches} |-> "local"]
        /\ todo = [r \in {rk[p] : p \in Patches} |-> {p \in Patches : rk[p] = r}]
        /\ msgs = <<>>
        /\ reg = <<>>

RECURSIVE FoldDirs(_, _, _)
FoldDirs(A, p, S) ==   \* local accumulation of patch p over directions S
    IF S = {} THEN A
    ELSE LET d == CHOOSE x \in S : TRUE
             q == Nb(p, d)
             od == Opp(d)
             \* neighbour q's guard strip in direction od stands for p's interior
             B == IF Mode = "cur"
                  THEN LET A1 == [A EXCEPT ![p] = [k \in Cells(G) |->
                                   IF \E s \in GStrip(od) : Tuple(Shift(s, od)) = k
                                   THEN A[p][k] + A[q][CHOOSE s \in GStrip(od) : Tuple(Shift(s, od)) = k] ELSE A[p][k]]]
                       IN [A1 EXCEPT ![q] = [k \in Cells(G) |-> IF k \in GStrip(od) THEN 0 ELSE A1[q][k]]]
                  ELSE [A EXCEPT ![p] = [k \in Cells(G) |-> IF k \in GStrip(d) THEN A[q][Tuple(Shift(k, d))] ELSE A[p][k]]]
         IN FoldDirs(B, p, S \ {d})

LocalPatch(r, p) ==
    /\ phase[r] = "local" /\ p \in todo[r]
    /\ arr' = FoldDirs(arr, p, {d \in Dirs(D) : IsLocal(p, d)})
    /\ todo' = [todo EXCEPT ![r] = @ \ {p}]
    /\ UNCHANGED <<rk, arr0, phase, msgs, reg>>

(* message <<p, d>>: from p to its neighbour in direction d *)
SendKeys(r) == {x \in Mine(r) \X Dirs(D) : IsRemote(x[1], x[2])}
RecvItems(r) == {x \in Mine(r) \X Dirs(D) : IsRemote(x[1], x[2])}
StartAll(r) ==
    /\ phase[r] = "local" /\ todo[r] = {}
    /\ msgs' = [x \in SendKeys(r) |-> IF Mode = "cur" THEN [k \in GStrip(x[2]) |-> arr[x[1]][k]]
                                      ELSE [k \in GStrip(Opp(x[2])) |-> arr[x[1]][Tuple(Shift(k, Opp(x[2])))]]] @@ msgs
    /\ arr' = IF Mode = "guard" THEN arr
              ELSE [p \in Patches |-> [k \in Cells(G) |-> IF rk[p] = r /\ (\E d \in Dirs(D) : IsRemote(p, d) /\ k \in GStrip(d)) THEN 0 ELSE arr[p][k]]]
    /\ phase' = [phase EXCEPT ![r] = "wait"]
    /\ todo' = [todo EXCEPT ![r] = IF ByStrip THEN RecvItems(r) ELSE {p \in Mine(r) : \E d \in Dirs(D) : IsRemote(p, d)}]
    /\ UNCHANGED <<rk, arr0, reg>>

(* what patch p receives from its neighbour in direction d: applied to array a *)
Apply(a, p, d) ==
    LET q == Nb(p, d) od == Opp(d) m == msgs[<<q, od>>]
    IN IF Mode = "cur" THEN [k \in Cells(G) |-> IF \E s \in GStrip(od) : Tuple(Shift(s, od)) = k
                                THEN a[k] + m[CHOOSE s \in GStrip(od) : Tuple(Shift(s, od)) = k] ELSE a[k]]
       ELSE [k \in Cells(G) |-> IF k \in GStrip(d) THEN m[k] ELSE a[k]]
RECURSIVE ApplyAll(_, _, _)
ApplyAll(a, p, S) == IF S = {} THEN a ELSE LET d == CHOOSE x \in S : TRUE IN ApplyAll(Apply(a, p, d), p, S \ {d})

Here(p, d) == <<Nb(p, d), Opp(d)>> \in DOMAIN msgs
WaitPatch(r, p) ==
    /\ ~ByStrip /\ phase[r] = "wait" /\ p \in todo[r]
    /\ \A d \in Dirs(D) : IsRemote(p, d) => Here(p, d)
    /\ arr' = [arr EXCEPT ![p] = ApplyAll(@, p, {d \in Dirs(D) : IsRemote(p, d)})]
    /\ msgs' = [x \in DOMAIN msgs \ {<<Nb(p, d), Opp(d)>> : d \in {e \in Dirs(D) : IsRemote(p, e)}} |-> msgs[x]]
    /\ todo' = [todo EXCEPT ![r] = @ \ {p}]
    /\ UNCHANGED <<rk, arr0, phase, reg>>
WaitRead(r, p, d) ==
    /\ ByStrip /\ phase[r] = "wait" /\ <<p, d>> \in todo[r] /\ Here(p, d) /\ <<p, d>> \notin DOMAIN reg
    /\ reg' = (<<p, d>> :> arr[p]) @@ reg
    /\ UNCHANGED <<rk, arr0, phase, todo, msgs, arr>>
WaitWrite(r, p, d) ==
    /\ <<p, d>> \in DOMAIN reg /\ rk[p] = r
    /\ LET new == Apply(reg[<<p, d>>], p, d) touched == {k \in Cells(G) : new[k] # reg[<<p, d>>][k]}
       IN arr' = [arr EXCEPT ![p] = [k \in Cells(G) |-> IF k \in touched THEN new[k] ELSE @[k]]]
    /\ reg' = [x \in DOMAIN reg \ {<<p, d>>} |-> reg[x]]
    /\ msgs' = [x \in DOMAIN msgs \ {<<Nb(p, d), Opp(d)>>} |-> msgs[x]]
    /\ todo' = [todo EXCEPT ![r] = @ \ {<<p, d>>}]
    /\ UNCHANGED <<rk, arr0, phase>>
Finish(r) == /\ phase[r] = "wait" /\ todo[r] = {}
             /\ phase' = [phase EXCEPT ![r] = "done"]
             /\ UNCHANGED <<rk, arr, arr0, todo, msgs, reg>>
Next == \E r \in Ranks : \/ \E p \in Mine(r) : LocalPatch(r, p) \/ WaitPatch(r, p)
                         \/ \E p \in Mine(r), d \in Dirs(D) : WaitRead(r, p, d) \/ WaitWrite(r, p, d)
                         \/ StartAll(r) \/ Finish(r)
Spec == Init /\ [][Next]_vars

Done == \A r \in Ranks : phase[r] = "done"
Nest(a) == [i \in 1..Ext(G, 1) |-> [j \in 1..Ext(G, 2) |-> a[<<i, j>>]]]
Correct == Done => LET f == [p \in Patches |-> Nest(arr0[p])] tab == StandTab(G) IN
    \A p \in Patches : \A k \in Cells(G) :
        IF Mode = "guard" THEN arr[p][k] = GuardExpected(G, f, p, k)
        ELSE IsInterior(G, k) => arr[p][k] = CurrentTotal(G, tab, f, GlobalOf(G, p, k))
NothingLeftOver == Done => msgs = <<>> /\ reg = <<>>
NoDeadlock == Done \/ ENABLED Next
=============================================================================
