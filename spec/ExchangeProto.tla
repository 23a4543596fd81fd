--------------------------- MODULE ExchangeProto ---------------------------
(***************************************************************************)
(* The protocol behind Exchange: how the code performs one exchange.        *)
(* Per rank and species: send the number of leaving particles per remote    *)
(* neighbour, receive the same, grow the storage, send the particles and    *)
(* free their slots (start, all species), receive into free slots (wait,    *)
(* all species), then exchange between local patches in four phases that    *)
(* threads execute patch by patch in any order with a barrier in between:   *)
(* count, grow, fill from the neighbours' slots, drop what left.            *)
(* Properties: the final live sets are exactly Exchanged(before) for every  *)
(* species (nothing lost, copied or mixed), no message is ever overwritten  *)
(* or left over, free slots always suffice.                                 *)
(***************************************************************************)
EXTENDS Exchange, TLC

CONSTANTS G,        \* geometry record
          RankMaps, \* set of functions patch -> rank
          Inits,    \* set of functions species -> patch -> sequence of slots
          NS        \* number of species

Patches == PatchCoords(G.np)
D == Len(G.np)
Sp == 1..NS
Dead == [live |-> FALSE]
VARIABLES rk, slots, before, pc, msgs, lph, todo, cin
vars == <<rk, slots, before, pc, msgs, lph, todo, cin>>
Ranks == {rk[p] : p \in Patches}
Mine(r) == {p \in Patches : rk[p] = r}
LiveOf(ss) == { [pos |-> ss[i].pos, at |-> ss[i].at] : i \in {j \in DOMAIN ss : ss[j].live} }
NDead(ss) == Cardinality({j \in DOMAIN ss : ~ss[j].live})

(* slot numbers of live particles of (s,p) leaving in direction d *)
Leaving(s, p, d) == {i \in DOMAIN slots[s][p] : slots[s][p][i].live /\ OffDir(G, p, slots[s][p][i].pos) = d}
Nb(p, d) == Adj(G.np, G.per, p, d)
Remote(p, d) == Nb(p, d) # <<>> /\ rk[Nb(p, d)] # rk[p]
Local(p, d) == Nb(p, d) # <<>> /\ rk[Nb(p, d)] = rk[p]
RDirs(p) == {d \in Dirs(D) : Remote(p, d)}

Key(kind, s, p, d) == <<kind, s, p, d>>   \* tag of a message leaving patch p in direction d

Init == /\ rk \in RankMaps
        /\ slots \in Inits
        /\ before = [s \in Sp |-> [p \in Patches |-> LiveOf(slots[s][p])]]
        /\ pc = [r \in {rk[p] : p \in Patches} |-> <<"count", 1>>]
        /\ msgs = <<>>
        /\ lph = [r \in {rk[p] : p \in Patches} |-> "no"]
        /\ todo = [r \in {rk[p] : p \in Patches} |-> {}]
        /\ cin = <<>>

SendKeys(r, kind, s) == {Key(kind, s, p, d) : p \in Mine(r), d \in Dirs(D)} \cap
                        {Key(kind, s, x[1], x[2]) : x \in {y \in Mine(r) \X Dirs(D) : Remote(y[1], y[2])}}
RecvKeys(r, kind, s) == {Key(kind, s, Nb(x[1], x[2]), Opp(x[2])) : x \in {y \in Mine(r) \X Dirs(D) : Remote(y[1], y[2])}}

Post(new) == /\ DOMAIN new \cap DOMAIN msgs = {}
             /\ msgs' = msgs @@ new
Take(keys) == msgs' = [k \in DOMAIN msgs \ keys |-> msgs[k]]

(* -- remote part ------------------------------------------------------- *)
SendCounts(r, s) ==
    /\ pc[r] = <<"count", s>>
    /\ Post([k \in SendKeys(r, "n", s) |-> Cardinality(Leaving(s, k[3], k[4]))])
    /\ pc' = [pc EXCEPT ![r] = <<"grow", s>>]
    /\ UNCHANGED <<rk, slots, before, lph, todo, cin>>

NIn(p, s, m) == SumOver([d \in RDirs(p) |-> m[Key("n", s, Nb(p, d), Opp(d))]], RDirs(p))
RECURSIVE Grow(_, _)
Grow(ss, k) == IF k <= 0 THEN ss ELSE Grow(Append(ss, Dead), k - 1)

GrowStep(r, s) ==
    /\ pc[r] = <<"grow", s>>
    /\ RecvKeys(r, "n", s) \subseteq DOMAIN msgs
    /\ slots' = [slots EXCEPT ![s] = [p \in Patches |-> IF rk[p] = r
                    THEN Grow(slots[s][p], NIn(p, s, msgs) - NDead(slots[s][p])) ELSE slots[s][p]]]
    /\ cin' = [k \in RecvKeys(r, "n", s) |-> msgs[k]] @@ cin
    /\ Take(RecvKeys(r, "n", s))
    /\ pc' = [pc EXCEPT ![r] = <<"start", s>>]
    /\ UNCHANGED <<rk, before, lph, todo>>

Start(r, s) ==
    /\ pc[r] = <<"start", s>>
    /\ Post([k \in SendKeys(r, "p", s) |-> { [pos |-> slots[s][k[3]][i].pos, at |-> slots[s][k[3]][i].at] : i \in Leaving(s, k[3], k[4]) }])
    /\ slots' = [slots EXCEPT ![s] = [p \in Patches |-> IF rk[p] # r THEN slots[s][p]
                    ELSE [i \in DOMAIN slots[s][p] |-> IF \E d \in RDirs(p) : i \in Leaving(s, p, d) THEN Dead ELSE slots[s][p][i]]]]
    /\ pc' = [pc EXCEPT ![r] = IF s < NS THEN <<"count", s + 1>> ELSE <<"wait", 1>>]
    /\ UNCHANGED <<rk, before, lph, todo, cin>>

RECURSIVE Put(_, _)
Put(ss, new) == IF new = {} THEN ss
    ELSE LET x == CHOOSE y \in new : TRUE
             fr == {i \in DOMAIN ss : ~ss[i].live}
         IN Put([ss EXCEPT ![CHOOSE i \in fr : \A j \in fr : i <= j] = [live |-> TRUE, pos |-> x.pos, at |-> x.at]], new \ {x})
Wrapped(S) == {[pos |-> Wrap(G, x.pos), at |-> x.at] : x \in S}

Wait(r, s) ==
    /\ pc[r] = <<"wait", s>>
    /\ RecvKeys(r, "p", s) \subseteq DOMAIN msgs
    /\ slots' = [slots EXCEPT ![s] = [p \in Patches |-> IF rk[p] # r THEN slots[s][p]
          ELSE Put(slots[s][p], UNION {Wrapped(msgs[Key("p", s, Nb(p, d), Opp(d))]) : d \in RDirs(p)})]]
    /\ Take(RecvKeys(r, "p", s))
    /\ pc' = [pc EXCEPT ![r] = IF s < NS THEN <<"wait", s + 1>> ELSE <<"local", 1>>]
    /\ todo' = [todo EXCEPT ![r] = IF s < NS THEN {} ELSE Mine(r)]
    /\ lph' = [lph EXCEPT ![r] = IF s < NS THEN "no" ELSE "grow"]
    /\ UNCHANGED <<rk, before, cin>>

(* -- local part: threads take patches one at a time ----------------------- *)
LIn(s, p) == UNION { {<<Nb(p, d), i>> : i \in Leaving(s, Nb(p, d), Opp(d))} : d \in {e \in Dirs(D) : Local(p, e)} }
LIncoming(s, p) == { LET x == slots[s][y[1]][y[2]] IN [pos |-> Wrap(G, x.pos), at |-> x.at] : y \in LIn(s, p) }

Done(r, s) == /\ todo[r] # {} => FALSE
NextPhase(ph) == CASE ph = "grow" -> "fill" [] ph = "fill" -> "drop" [] OTHER -> "end"

LocalPatch(r, s, p) ==
    /\ pc[r] = <<"local", s>> /\ p \in todo[r]
    /\ todo' = [todo EXCEPT ![r] = @ \ {p}]
    /\ slots' = CASE lph[r] = "grow" -> [slots EXCEPT ![s][p] = Grow(@, Cardinality(LIn(s, p)) - NDead(@))]
                  [] lph[r] = "fill" -> [slots EXCEPT ![s][p] = Put(@, LIncoming(s, p))]
                  [] lph[r] = "drop" -> [slots EXCEPT ![s][p] = [i \in DOMAIN @ |-> IF @[i].live /\ ~Stays(G, p, @[i].pos) THEN Dead ELSE @[i]]]
    /\ UNCHANGED <<rk, before, pc, msgs, lph, cin>>

LocalBarrier(r, s) ==
    /\ pc[r] = <<"local", s>> /\ todo[r] = {}
    /\ LET nx == NextPhase(lph[r]) IN
        IF nx # "end" THEN /\ lph' = [lph EXCEPT ![r] = nx] /\ todo' = [todo EXCEPT ![r] = Mine(r)] /\ pc' = pc
        ELSE IF s < NS THEN /\ lph' = [lph EXCEPT ![r] = "grow"] /\ todo' = [todo EXCEPT ![r] = Mine(r)] /\ pc' = [pc EXCEPT ![r] = <<"local", s + 1>>]
        ELSE /\ pc' = [pc EXCEPT ![r] = <<"done", 0>>] /\ UNCHANGED <<lph, todo>>
    /\ UNCHANGED <<rk, slots, before, msgs, cin>>

Next == \E r \in Ranks : \/ \E s \in Sp : SendCounts(r, s) \/ GrowStep(r, s) \/ Start(r, s) \/ Wait(r, s) \/ LocalBarrier(r, s)
                         \/ \E s \in Sp, p \in Mine(r) : LocalPatch(r, s, p)
Finished == \A r \in Ranks : pc[r][1] = "done"
Spec == Init /\ [][Next]_vars

(* -- properties ------------------------------------------------------------ *)
Correct == Finished => \A s \in Sp : LET want == Exchanged(G, before[s]) IN
              \A p \in Patches : /\ LiveOf(slots[s][p]) = want[p]
                                 /\ Cardinality({i \in DOMAIN slots[s][p] : slots[s][p][i].live}) = Cardinality(want[p])
NothingLeftOver == Finished => msgs = <<>>
NoDeadlock == Finished \/ ENABLED Next
=============================================================================
