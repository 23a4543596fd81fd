------------------------------- MODULE Request -------------------------------
(***************************************************************************)
(* Synchronising the currents in one step, as the simulation object does it: *)
(* flags (synced, handle) per rank, deposits of several species, the          *)
(* background exchange started by the step, and requests by user code at any   *)
(* callback point.  All ranks execute the same sequence of collective calls.   *)
(* A deposit of species s on rank r is the contribution <<r, s>>, half of it    *)
(* in cells another rank owns: it is visible on r at once (own) and on the      *)
(* other ranks after an exchange.                                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS NR, NSpec, Requests
Ranks == 1..NR
(* program points of a step where callbacks run *)
Program == <<"reset">> \o [i \in 1..(3 * NSpec) |-> CASE i % 3 = 1 -> "before" [] i % 3 = 2 -> "deposit" [] OTHER -> "after"]
           \o <<"start", "wait", "use", "late">>
SpecOf(i) == ((i - 2) \div 3) + 1
CallPoints == {i \in DOMAIN Program : Program[i] \in {"before", "after", "late"}}
VARIABLES plan, pc, sub, synced, handle, guard, vis, net, bar, used, dup, nextmsg
vars == <<plan, pc, sub, synced, handle, guard, vis, net, bar, used, dup, nextmsg>>
(* sub[r]: remaining calls of the current request *)
Calls(q) == CASE q = "none" -> <<>> [] q = "sync" -> <<"S", "W">> [] q = "sync2" -> <<"S", "W", "S", "W">>
              [] q = "startwait" -> <<"s", "w">> [] q = "waitonly" -> <<"w">> [] q = "start+sync" -> <<"s", "S", "W">>
Init == /\ plan \in {f \in [DOMAIN Program -> Requests] : \A i \in DOMAIN Program \ CallPoints : f[i] = "none"}
        /\ pc = [r \in Ranks |-> 1] /\ sub = [r \in Ranks |-> <<>>]
        /\ synced = [r \in Ranks |-> TRUE] /\ handle = [r \in Ranks |-> 0]
        /\ guard = [r \in Ranks |-> {}] /\ vis = [r \in Ranks |-> {}]
        /\ net = {} /\ bar = [r \in Ranks |-> 0] /\ used = [r \in Ranks |-> {<<0, 0>>}] /\ dup = FALSE
        /\ nextmsg = [r \in Ranks |-> 1]

Adv(r) == pc' = [pc EXCEPT ![r] = @ + 1]
Ready(r) == sub[r] = <<>> /\ pc[r] <= Len(Program)
Keep(S) == UNCHANGED S

Reset(r) == /\ Ready(r) /\ Program[pc[r]] = "reset"
            /\ guard' = [guard EXCEPT ![r] = {}] /\ vis' = [vis EXCEPT ![r] = {}]
            /\ synced' = [synced EXCEPT ![r] = FALSE] /\ Adv(r)
            /\ UNCHANGED <<plan, sub, handle, net, bar, used, dup, nextmsg>>
Deposit(r) == /\ Ready(r) /\ Program[pc[r]] = "deposit"
              /\ guard' = [guard EXCEPT ![r] = @ \cup {<<r, SpecOf(pc[r])>>}]
              /\ vis' = [vis EXCEPT ![r] = @ \cup {<<r, SpecOf(pc[r])>>}]
              /\ synced' = [synced EXCEPT ![r] = FALSE] /\ Adv(r)
              /\ UNCHANGED <<plan, sub, handle, net, bar, used, dup, nextmsg>>
Point(r) == /\ Ready(r) /\ Program[pc[r]] \in {"before", "after", "late", "start", "wait"}
            /\ sub' = [sub EXCEPT ![r] = CASE Program[pc[r]] = "start" -> <<"s">> [] Program[pc[r]] = "wait" -> <<"w">>
                                           [] OTHER -> Calls(plan[pc[r]])]
            /\ Adv(r)
            /\ UNCHANGED <<plan, synced, handle, guard, vis, net, bar, used, dup, nextmsg>>
Use(r) == /\ Ready(r) /\ Program[pc[r]] = "use"
          /\ used' = [used EXCEPT ![r] = vis[r]] /\ Adv(r)
          /\ UNCHANGED <<plan, sub, synced, handle, guard, vis, net, bar, dup, nextmsg>>

(* start: no-op when synced or in flight; else pack + post.  "S"/"W": the two halves of sync_currents *)
Skip(r) == sub' = [sub EXCEPT ![r] = Tail(@)] /\ UNCHANGED <<plan, pc, synced, handle, guard, vis, net, bar, used, dup, nextmsg>>
Start(r) ==
    /\ sub[r] # <<>> /\ Head(sub[r]) \in {"s", "S"}
    /\ IF synced[r] \/ handle[r] # 0
       THEN /\ sub' = [sub EXCEPT ![r] = IF Head(@) = "S" /\ synced[r] THEN Tail(Tail(@)) ELSE Tail(@)]
            /\ UNCHANGED <<plan, pc, synced, handle, guard, vis, net, bar, used, dup, nextmsg>>
       ELSE /\ sub' = [sub EXCEPT ![r] = Tail(@)]
            /\ net' = net \cup {[from |-> r, to |-> q, no |-> nextmsg[r], body |-> guard[r]] : q \in Ranks \ {r}}
            /\ guard' = [guard EXCEPT ![r] = {}]
            /\ handle' = [handle EXCEPT ![r] = IF NR > 1 THEN nextmsg[r] ELSE 0]
            /\ synced' = [synced EXCEPT ![r] = NR = 1]
            /\ nextmsg' = [nextmsg EXCEPT ![r] = @ + 1]
            /\ UNCHANGED <<plan, pc, vis, bar, used, dup>>
Wait(r) ==
    /\ sub[r] # <<>> /\ Head(sub[r]) \in {"w", "W"}
    /\ IF handle[r] = 0 THEN Skip(r)
       ELSE LET mine == {m \in net : m.to = r /\ m.no = handle[r]} IN
            /\ Cardinality(mine) = NR - 1
            /\ sub' = [sub EXCEPT ![r] = Tail(@)]
            /\ net' = net \ mine
            /\ dup' = (dup \/ \E m \in mine : m.body \cap vis[r] # {})
            /\ vis' = [vis EXCEPT ![r] = @ \cup UNION {m.body : m \in mine}]
            /\ handle' = [handle EXCEPT ![r] = 0] /\ synced' = [synced EXCEPT ![r] = TRUE]
            /\ UNCHANGED <<plan, pc, guard, bar, used, nextmsg>>
Next == \E r \in Ranks : Reset(r) \/ Deposit(r) \/ Point(r) \/ Use(r) \/ Start(r) \/ Wait(r)
Spec == Init /\ [][Next]_vars

AllDeps == Ranks \X (1..NSpec)
Finished == \A r \in Ranks : pc[r] > Len(Program) /\ sub[r] = <<>>
UsedComplete == \A r \in Ranks : used[r] # {<<0, 0>>} => used[r] = AllDeps
NeverTwice == ~dup
NoneInFlight == Finished => net = {} /\ \A r \in Ranks : handle[r] = 0
NoDeadlock == Finished \/ ENABLED Next
(* after a completed request everything deposited at that point by all is visible *)
RequestComplete == \A r \in Ranks : (sub[r] = <<>> /\ pc[r] > 1 /\ pc[r] <= Len(Program) + 1 /\ (pc[r] - 1) \in CallPoints
                      /\ plan[pc[r] - 1] \in {"sync", "sync2"})
                   => {<<q, s>> \in AllDeps : \E i \in 1..(pc[r] - 1) : Program[i] = "deposit" /\ SpecOf(i) = s} \subseteq vis[r]
=============================================================================
