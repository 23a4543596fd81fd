---------------------------- MODULE MCCheckpoint ----------------------------
(* Processes run steps, write checkpoints, end at any moment, are started anew from any   *)
(* checkpoint.  The state: step, accumulated time (as the sums that made it), what the      *)
(* random numbers have produced (draws of the per-process stream, of each module's stream), *)
(* the window's progress, a digest of fields and particles that every step folds these into. *)
(* Variants leave a part out of the checkpoint or restore it differently (refuted).           *)
EXTENDS Checkpoint
CONSTANTS Last, Shift, Variant
VARIABLES st, ck, log, life
vars == <<st, ck, log, life>>
Zero == [s |-> 0, time |-> <<0, 0>>, rng |-> 0, mod |-> 0, win |-> Shift, dig |-> <<>>]
Fresh(seed) == [Zero EXCEPT !.rng = seed, !.mod = seed]
(* one step up to its end stage *)
Work(x) == LET w == IF x.win >= Shift THEN x.win - Shift + 1 ELSE x.win + 1
               fill == x.win >= Shift
           IN [x EXCEPT !.win = w, !.rng = IF fill THEN @ + 1 ELSE @, !.mod = @ + 1,
                        !.dig = <<x.time, x.mod, IF fill THEN x.rng ELSE -1>>]
Advance(x) == [x EXCEPT !.s = @ + 1, !.time = <<@[1], @[2] + 1>>]
Load(x) == LET y == Advance(x)
           IN CASE Variant = "product" -> [y EXCEPT !.time = <<y.s, 0>>]
                [] Variant = "norand" -> [y EXCEPT !.mod = 77]
                [] Variant = "nowindow" -> [y EXCEPT !.win = Shift]
                [] Variant = "reseed" -> [y EXCEPT !.rng = 0]
                [] Variant = "again" -> x
                [] OTHER -> y
Init == st = Fresh(0) /\ ck = {} /\ log = <<>> /\ life = 1
Step == /\ life <= 3 /\ st.s <= Last /\ Len(log) < 3 * Last
        /\ LET x == Work(st) IN /\ log' = Append(log, x) /\ st' = Advance(x)
                                /\ ck' \in {ck, {c \in ck : c.s # x.s} \cup {x}}
        /\ UNCHANGED life
Restart == /\ life < 3 /\ \E c \in ck : st' = Load(c) /\ life' = life + 1 /\ UNCHANGED <<ck, log>>
Next == Step \/ Restart
Spec == Init /\ [][Next]_vars
Continues == Functional(log)
=============================================================================
