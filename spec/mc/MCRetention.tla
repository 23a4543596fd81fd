----------------------------- MODULE MCRetention -----------------------------
(* Runs with checkpoints: every process repeats steps, each step ends with a collective *)
(* decision whether a signal has been seen; signals reach any process at any moment.      *)
(* "local" decides per process (refuted: processes wait in different collectives);           *)
(* "text" orders step names as text (refuted once the number of digits grows).                  *)
EXTENDS Retention
CONSTANTS Ranks, First, Last, Iv, K, Variant
VARIABLES step, at, flag, disk, shards, sig, ended, made
vars == <<step, at, flag, disk, shards, sig, ended, made>>
Digits(n) == IF n < 10 THEN <<n>> ELSE <<n \div 10, n % 10>>
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
TextMost(S, k) == IF Cardinality(S) <= k THEN S ELSE {x \in S : Cardinality({y \in S : Less(Digits(x), Digits(y))}) < k}
Gc(S) == IF Variant = "text" THEN TextMost(S, K) ELSE Most(S, K)
Init == /\ step = [r \in Ranks |-> First] /\ at = [r \in Ranks |-> "work"] /\ flag = [r \in Ranks |-> FALSE]
        /\ disk \in {{}, {First - 1}, {First - 3, First - 2}} /\ shards = [s \in (First - 3)..Last |-> IF s \in disk THEN Ranks ELSE {}]
        /\ sig = [r \in Ranks |-> FALSE] /\ ended = FALSE /\ made = disk
Signal(r) == /\ ~sig[r] /\ ~ended /\ at[r] \in {"work", "decide"} /\ sig' = [sig EXCEPT ![r] = TRUE] /\ flag' = [flag EXCEPT ![r] = TRUE]
             /\ UNCHANGED <<step, at, disk, shards, ended, made>>
Work(r) == /\ at[r] = "work" /\ at' = [at EXCEPT ![r] = IF Due(step[r], Iv) THEN "dump" ELSE "decide"]
           /\ UNCHANGED <<step, flag, disk, shards, sig, ended, made>>
(* all processes together; each writes its shard *)
Together(a) == \A r \in Ranks : at[r] = a
SameStep == \A r, q \in Ranks : step[r] = step[q]
Dump == /\ Together("dump") /\ SameStep
        /\ LET s == step[CHOOSE r \in Ranks : TRUE] d == Gc(disk \cup {s})
           IN disk' = d /\ shards' = [q \in DOMAIN shards |-> IF q = s /\ q \in d THEN Ranks ELSE IF q \in d THEN shards[q] ELSE {}] /\ made' = made \cup {s}
        /\ at' = [r \in Ranks |-> IF ended THEN "stop" ELSE "decide"] /\ UNCHANGED <<step, flag, sig, ended>>
Decide == /\ Variant # "local" /\ Together("decide")
          /\ IF \E r \in Ranks : flag[r]
             THEN ended' = TRUE /\ at' = [r \in Ranks |-> "dump"] /\ UNCHANGED step
             ELSE /\ ended' = FALSE /\ step' = [r \in Ranks |-> step[r] + 1] /\ at' = [r \in Ranks |-> IF step[r] = Last THEN "stop" ELSE "work"]
          /\ UNCHANGED <<flag, disk, shards, sig, made>>
DecideLocal(r) == /\ Variant = "local" /\ at[r] = "decide"
                  /\ IF flag[r] THEN at' = [at EXCEPT ![r] = "dump"] /\ ended' = TRUE /\ UNCHANGED step
                     ELSE step' = [step EXCEPT ![r] = @ + 1] /\ at' = [at EXCEPT ![r] = IF step[r] = Last THEN "stop" ELSE "work"] /\ UNCHANGED ended
                  /\ UNCHANGED <<flag, disk, shards, sig, made>>
Next == Dump \/ Decide \/ \E r \in Ranks : Signal(r) \/ Work(r) \/ DecideLocal(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Dump \/ Decide \/ \E r \in Ranks : Work(r) \/ DecideLocal(r))
Recent == disk = Most(made, K)
Whole == \A s \in disk : shards[s] = Ranks
NoHang == Together("stop") \/ ENABLED (Dump \/ Decide \/ \E r \in Ranks : Work(r) \/ DecideLocal(r))
Saved == (ended /\ Together("stop")) => \E s \in disk : \A r \in Ranks : step[r] = s
=============================================================================
