------------------------------ MODULE TSpecies ------------------------------
(* Registrations and runs with species switched off and on (property S01).                       *)
(*   reg     req: wishes; names, idx: names and numbers of all so far; held: each is part of the     *)
(*           simulation                                                                                 *)
(*   parts   r: per species, by its number: at: its places in the list, push, sort, rad, pair:            *)
(*           whose pusher, sorter, emission, conversion stand there (-1: none); n of want particles         *)
(*   refused the simulation declines the species                                                              *)
(*   toggle  k on                                                                                                 *)
(*   step    off: switched off during the step; dep: deposits in order; frz: <<k, before, after, olds         *)
(*           kept, may receive>>; oth, fld: digests with k switched off and with k absent; near: the same       *)
(*           as rows of numbers; still: resumed or running ones that did not move                                *)
EXTENDS Species, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, names, off
vars == <<tr, l, names, off>>
Cfg == Traces[tr].cfg
Bad == -777777777
Rng(s) == {s[i] : i \in DOMAIN s}
Near(a, b) == a - b \in -8..8 /\ a # Bad
RegClauses(e) ==
    LET n == Len(names)
        new == SubSeq(e.names, n + 1, Len(e.names))
    IN (IF Len(e.names) = n + Len(e.req) /\ SubSeq(e.names, 1, n) = names THEN {} ELSE {"an earlier species was renamed"})
       \cup (IF Cardinality(Rng(e.names)) = Len(e.names) THEN {} ELSE {"two species share a name"})
       \cup (IF Fits(Rng(names), e.req, new) THEN {} ELSE {"a species got another name than it should"})
       \cup (IF e.idx = [i \in 1..Len(e.names) |-> i - 1] THEN {} ELSE {"the species are not numbered in order"})
       \cup (IF \A i \in DOMAIN e.held : e.held[i] = 1 THEN {} ELSE {"a species is lost"})
Odd == \E c \in DOMAIN Cfg.calls : \E i \in DOMAIN Cfg.calls[c] : "tbmt" \in DOMAIN Cfg.calls[c][i]
PartClauses(e) ==
    LET N == DOMAIN e.r
    IN (IF \A i \in DOMAIN e.len : e.len[i] = Len(e.r) THEN {} ELSE {"a part does not hold one entry per species"})
       \cup (IF \A i \in N : e.r[i].at = <<i - 1>> THEN {} ELSE {"the patches number the species differently"})
       \cup (IF \A i \in N : e.r[i].push = i - 1 /\ (e.r[i].how = "PhotonPusher" <=> e.r[i].kind = "g") THEN {} ELSE {"a species has the pusher of another"})
       \cup (IF \A i \in N : e.r[i].sort = i - 1 THEN {} ELSE {"a species has the sorter of another"})
       \cup (IF \A i \in N : e.r[i].rad = (IF e.r[i].wrad = 1 THEN i - 1 ELSE -1) THEN {} ELSE {"a species has the emission of another"})
       \cup (IF \A i \in N : e.r[i].pair = (IF e.r[i].wpair = 1 THEN i - 1 ELSE -1) THEN {} ELSE {"a species has the conversion of another"})
       \cup (IF \A i \in N : e.r[i].n = e.r[i].want THEN {} ELSE {"a species has the particles of another"})
StepClauses(e) ==
    (IF Rng(e.off) = off THEN {} ELSE {"a switch was not heeded"})
    \cup (IF e.watch = 1 => e.dep = On(Len(Cfg.species), off) THEN {} ELSE {"not exactly the species switched on are pushed and deposited in order"})
    \cup (IF \A i \in DOMAIN e.frz : (e.frz[i][5] = 0 => e.frz[i][2] = e.frz[i][3]) /\ e.frz[i][4] = 1 THEN {} ELSE {"a species switched off is not frozen"})
    \cup (IF \A i \in DOMAIN e.oth : e.oth[i][2] = e.oth[i][3] THEN {} ELSE {"others are affected by a species switched off"})
    \cup (IF e.fld[1] = e.fld[2] THEN {} ELSE {"the fields are affected by a species switched off"})
    \cup (IF \A i \in DOMAIN e.near : LET p == e.near[i][2] q == e.near[i][3] IN
                e.near[i][4] = 1 /\ Len(p) = Len(q) /\ \A j \in DOMAIN p : \A c \in DOMAIN p[j] : Near(p[j][c], q[j][c])
          THEN {} ELSE {"a run with a species switched off differs from one without it"})
    \cup (IF e.still = <<>> THEN {} ELSE {"a species switched on stands still"})
Clauses(e) == CASE e.op = "reg" -> RegClauses(e)
                [] e.op = "parts" -> PartClauses(e)
                [] e.op = "refused" -> IF Odd THEN {} ELSE {"a valid species was refused"}
                [] e.op = "toggle" -> {}
                [] OTHER -> StepClauses(e)
Init == tr \in DOMAIN Traces /\ l = 1 /\ names = <<>> /\ off = {}
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ names' = IF e.op = "reg" THEN e.names ELSE names
              /\ off' = IF e.op = "toggle" THEN (IF e.on = 1 THEN off \ {e.k} ELSE off \cup {e.k}) ELSE off
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
