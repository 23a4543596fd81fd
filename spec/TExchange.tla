----------------------------- MODULE TExchange -----------------------------
(* Trace validation of particle exchanges: events "place" (the driver put    *)
(* particles somewhere) and "exchange" (the code ran one full exchange);     *)
(* each logs for every species and patch the slots [dead, pos..., attrs...]. *)
EXTENDS Exchange, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st
vars == <<tr, l, st>>

Geo(tr_) == LET c == Traces[tr_].cfg IN
    [np |-> c.np, per |-> c.per, n |-> c.n, lo |-> c.lo, hi |-> c.hi]

(* a logged slot is <<alive, pos_1..pos_D, attr...>> *)
Part(D, s) == [pos |-> SubSeq(s, 2, D + 1), at |-> SubSeq(s, D + 2, Len(s))]
Live(D, slots) == {i \in DOMAIN slots : slots[i][1] = 1}
LiveSet(D, slots) == { Part(D, slots[i]) : i \in Live(D, slots) }

(* state as patch coordinate -> set, from a log entry of one species: seq of [c, s] *)
PState(D, log) == [c \in { log[i].c : i \in DOMAIN log } |->
                      LiveSet(D, (CHOOSE e \in {log[i] : i \in DOMAIN log} : e.c = c).s)]

NoDup(D, log) ==   \* every live slot is a different particle, and a patch is logged once
    /\ Cardinality({ log[i].c : i \in DOMAIN log }) = Len(log)
    /\ \A i \in DOMAIN log : Cardinality(LiveSet(D, log[i].s)) = Cardinality(Live(D, log[i].s))

Clauses(e) ==
    LET g == Geo(tr)
        D == Len(g.np)
        ns == Len(e.sp)
        after == [k \in 1..ns |-> PState(D, e.sp[k])]
        want == [k \in 1..ns |-> TLCEval(Exchanged(g, st[k]))]
    IN IF e.op = "place"
       THEN {}
       ELSE UNION { LET A == after[k] W == want[k] IN
           (IF DOMAIN A = PatchCoords(g.np) THEN {} ELSE {"a patch is missing or not held exactly once"})
         \cup (IF NoDup(D, e.sp[k]) THEN {} ELSE {"a particle is present more than once"})
         \cup (IF DOMAIN A # PatchCoords(g.np) \/ A = W THEN {}
               ELSE LET lost == UNION { W[c] : c \in DOMAIN W } \ UNION { A[c] : c \in DOMAIN A }
                        extra == UNION { A[c] : c \in DOMAIN A } \ UNION { W[c] : c \in DOMAIN W }
                    IN (IF lost = {} THEN {} ELSE {"particle lost, altered or wrongly wrapped: species " \o ToString(k)
                                                   \o " expected " \o ToString(CHOOSE x \in lost : TRUE)})
                     \cup (IF extra = {} THEN {} ELSE {"unexpected or altered particle: species " \o ToString(k)
                                                   \o " " \o ToString(CHOOSE x \in extra : TRUE)})
                     \cup (IF lost = {} /\ extra = {} THEN {"particle in the wrong patch"} ELSE {}))
         : k \in 1..ns }

Init == tr \in DOMAIN Traces /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l]
               D == Len(Traces[tr].cfg.np)
               bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ st' = [k \in 1..Len(e.sp) |-> PState(D, e.sp[k])]
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
