------------------------------- MODULE Balance -------------------------------
(***************************************************************************)
(* A rebalance, process by process.  Every process decides from the loads      *)
(* gathered from all (Local: from its own alone), gets the new map, pops the    *)
(* leavers from its list, sends them, and takes arrivals from the channels; a    *)
(* patch carries its state (Skeleton: the arriving patch is the bare copy used   *)
(* to compute the map).  Before/after a rebalance processes step their patches;   *)
(* the twin run never rebalances: state of patch p after k steps is k.            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS NPatch, NRank, MaxSteps, Local, Skeleton
Pat == 1..NPatch
Ranks == 0..(NRank - 1)
VARIABLES held, chan, pc, map, load, steps
vars == <<held, chan, pc, map, load, steps>>
Maps == {m \in [Pat -> Ranks] : \A r \in Ranks : \E p \in Pat : m[p] = r}
Own(r) == {x.p : x \in held[r]}
Sum(r) == Cardinality({p \in Own(r) : load[p] = 1}) * 3 + Cardinality(Own(r))
Wants(r) == IF Local THEN Sum(r) > 3 ELSE \E a, b \in Ranks : Sum(a) > Sum(b) + 1
Init == /\ \E m \in Maps : held = [r \in Ranks |-> {[p |-> p, st |-> 0] : p \in {q \in Pat : m[q] = r}}]
        /\ load \in [Pat -> {0, 1}]
        /\ chan = {} /\ pc = [r \in Ranks |-> "run"] /\ steps = [r \in Ranks |-> 0]
        /\ map \in Maps
(* all processes step together (exchanges of a step synchronise them) *)
Step == /\ \A r \in Ranks : pc[r] = "run" /\ steps[r] < MaxSteps
        /\ held' = [r \in Ranks |-> {[x EXCEPT !.st = @ + 1] : x \in held[r]}]
        /\ steps' = [r \in Ranks |-> steps[r] + 1]
        /\ pc' = [r \in Ranks |-> IF Wants(r) THEN "enter" ELSE "run"]
        /\ UNCHANGED <<chan, map, load>>
(* the map is computed by one and needs everybody: a collective step *)
Agree == /\ \A r \in Ranks : pc[r] = "enter"
         /\ \E m \in Maps : map' = m
         /\ pc' = [r \in Ranks |-> "send"] /\ UNCHANGED <<held, chan, load, steps>>
Send(r) == /\ pc[r] = "send" /\ pc' = [pc EXCEPT ![r] = "recv"]
           /\ held' = [held EXCEPT ![r] = {x \in @ : map[x.p] = r}]
           /\ chan' = chan \cup {[to |-> map[x.p], p |-> x.p, st |-> IF Skeleton THEN 0 ELSE x.st] : x \in {y \in held[r] : map[y.p] # r}}
           /\ UNCHANGED <<map, load, steps>>
Recv(r) == /\ pc[r] = "recv" /\ \E m \in chan : /\ m.to = r
              /\ held' = [held EXCEPT ![r] = @ \cup {[p |-> m.p, st |-> m.st]}] /\ chan' = chan \ {m}
           /\ UNCHANGED <<pc, map, load, steps>>
Done(r) == /\ pc[r] = "recv" /\ Own(r) = {p \in Pat : map[p] = r} /\ pc' = [pc EXCEPT ![r] = "done"]
           /\ UNCHANGED <<held, chan, map, load, steps>>
Resume == (\A q \in Ranks : pc[q] = "done") /\ pc' = [q \in Ranks |-> "run"] /\ UNCHANGED <<held, chan, map, load, steps>>
Over == (\A q \in Ranks : pc[q] = "run" /\ steps[q] = MaxSteps) /\ UNCHANGED vars
Next == Step \/ Agree \/ Resume \/ Over \/ \E r \in Ranks : Send(r) \/ Recv(r) \/ Done(r)
Spec == Init /\ [][Next]_vars
Quiet == \A r \in Ranks : pc[r] \in {"run", "enter", "done"}
OnceEach == \A p \in Pat : Cardinality({r \in Ranks : p \in Own(r)}) + Cardinality({m \in chan : m.p = p}) = 1
Settled == (\A q \in Ranks : pc[q] = "run") => chan = {} /\ \A q \in Ranks : held[q] # {}
SameAsTwin == \A r \in Ranks : \A x \in held[r] : x.st = steps[r]
AllOrNone == (\E q \in Ranks : pc[q] = "run") => \A q \in Ranks : pc[q] = "run"
=============================================================================
