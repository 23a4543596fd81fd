------------------------------ MODULE TBalance ------------------------------
(* Recorded rebalances (property E01); see Balance.  Events:                      *)
(*   balance  before/after: all patches [idx, rank, st], st the patch's state as    *)
(*            interned values (equal number = equal bytes), map the forced map or <<>> *)
(*   decide   each process's sequence of decisions                                   *)
(*   assign   the distribution of n patches over nrank processes, asked for directly      *)
(*   twin     the state of a run with rebalances (a) and of one without (b), per       *)
(*            patch: field values f and particles by identity, quantised                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
NRank == Traces[tr].cfg.nrank
Close(x, y) == x - y \in -2..2
SeqClose(s, t) == DOMAIN s = DOMAIN t /\ \A i \in DOMAIN s : Close(s[i], t[i])
At(s, i) == {k \in DOMAIN s : s[k].idx = i}
One(S) == CHOOSE x \in S : TRUE
Idxs(s) == {s[k].idx : k \in DOMAIN s}
Same(P) == \A x, y \in P : x = y
BalanceClauses(e) ==
    LET b == e.before a == e.after
    IN (IF Idxs(a) = Idxs(b) /\ \A i \in Idxs(b) : Cardinality(At(a, i)) = 1 THEN {} ELSE {"a patch is lost or lives on two processes"})
       \cup (IF \A i \in Idxs(b) : \A k \in At(a, i) : a[k].st = b[One(At(b, i))].st
             THEN {} ELSE {"a patch changed (state entries " \o ToString(UNION {{j \in DOMAIN b[One(At(b, i))].st : \E k \in At(a, i) : a[k].st[j] # b[One(At(b, i))].st[j]} : i \in Idxs(b)}) \o ")"})
       \cup (IF {a[k].rank : k \in DOMAIN a} = 0..(NRank - 1) THEN {} ELSE {"a process has no patch"})
       \cup (IF \A k \in DOMAIN a : \A m \in DOMAIN a[k].ni : a[k].ni[m] < 0 \/ \E j \in DOMAIN a : a[j].idx = a[k].ni[m] /\ a[k].nr[m] = (IF a[j].rank = a[k].rank THEN -1 ELSE a[j].rank) THEN {} ELSE {"a patch does not know where its neighbours live"})
       \cup (IF Len(e.map) = 0 \/ \A k \in DOMAIN a : a[k].rank = e.map[a[k].idx + 1] THEN {} ELSE {"a patch is not where the distribution says"})
TwinClauses(e) ==
    LET a == e.a b == e.b
    IN (IF Idxs(a) = Idxs(b) THEN {} ELSE {"patches missing"})
       \cup UNION { LET x == a[One(At(a, i))] y == b[One(At(b, i))]
            IN (IF SeqClose(x.f, y.f) THEN {} ELSE {"fields differ from the run without rebalance"})
               \cup (IF /\ \A s \in DOMAIN y.sp : Len(x.sp[s]) = Len(y.sp[s])
                        /\ \A s \in DOMAIN y.sp : \A k \in DOMAIN y.sp[s] : \E m \in DOMAIN x.sp[s] : x.sp[s][m][1] = y.sp[s][k][1] /\ SeqClose(x.sp[s][m], y.sp[s][k])
                     THEN {} ELSE {"particles differ from the run without rebalance"})
          : i \in Idxs(b) }
AssignClauses(e) ==
    (IF Len(e.ranks) = e.n /\ \A i \in DOMAIN e.ranks : e.ranks[i] \in 0..(e.nrank - 1) THEN {} ELSE {"a patch is given to no process"})
    \cup (IF e.n < e.nrank \/ {e.ranks[i] : i \in DOMAIN e.ranks} = 0..(e.nrank - 1) THEN {} ELSE {"the distribution leaves a process without a patch"})
    \cup (IF \A r \in 1..e.nrank : e.count[r] = Cardinality({i \in DOMAIN e.ranks : e.ranks[i] = r - 1}) THEN {} ELSE {"the distribution miscounts the patches"})
    \cup (IF e.again = e.ranks THEN {} ELSE {"the distribution is not reproducible"})
Clauses(e) == IF e.op = "balance" THEN BalanceClauses(e)
              ELSE IF e.op = "assign" THEN AssignClauses(e)
              ELSE IF e.op = "decide" THEN (IF Len(e.dec) = NRank /\ Same({e.dec[i] : i \in DOMAIN e.dec}) THEN {} ELSE {"processes decide differently"})
              ELSE TwinClauses(e)
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET bad == TLCEval(Clauses(Traces[tr].ev[l]))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
