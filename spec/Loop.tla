-------------------------------- MODULE Loop --------------------------------
(* The main loop (property H01) as a machine over the observable events of a run: *)
(* callbacks being called, the user asking to stop, the run returning.  A state     *)
(* is a record: phase ph, place in the step's programme (a, species s, stage k),     *)
(* next callback c of the stage, step counter it, steps wanted tot, enabled species. *)
(* Internal moves (an empty stage, a disabled species) are done by Norm when the     *)
(* next observable is needed, so toggles made inside a callback take effect.          *)
EXTENDS Integers, Sequences, FiniteSets
Species == <<"_push_position_1", "_interpolator", "_qed", "_push_momentum", "_push_position_2", "current_deposition">>
Main == <<"start", "maxwell_1", "SPECIES", "qed_create_particles", "_laser", "maxwell_2", "end">>
StageSet == ({Species[i] : i \in DOMAIN Species} \cup {Main[i] : i \in DOMAIN Main} \cup {"init", "final"}) \ {"SPECIES"}
(* cbs: registered callbacks, each the name of its stage ("" = the default stage) *)
StageOf(s) == IF s = "" THEN "end" ELSE s
RECURSIVE AtFrom(_, _, _)
AtFrom(cbs, stage, i) == IF i > Len(cbs) THEN <<>>
                         ELSE IF StageOf(cbs[i]) = stage THEN <<i>> \o AtFrom(cbs, stage, i + 1) ELSE AtFrom(cbs, stage, i + 1)
CbsAt(cbs, stage) == AtFrom(cbs, stage, 1)
Fresh(ns) == [ph |-> "idle", a |-> 1, s |-> 0, k |-> 1, c |-> 1, it |-> 0, tot |-> 0, en |-> [i \in 1..ns |-> TRUE]]
NextEn(st) == LET S == {i \in DOMAIN st.en : i > st.s /\ st.en[i]} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
(* one internal move; a state that shows an observable is its own image *)
Stage(st) == CASE st.ph = "init" -> "init" [] st.ph \in {"final", "stopped"} -> "final"
               [] st.ph = "step" /\ st.a <= Len(Main) -> IF Main[st.a] = "SPECIES" THEN (IF st.s = 0 THEN "-" ELSE Species[st.k]) ELSE Main[st.a]
               [] OTHER -> "-"
Pending(cbs, st) == st.c <= Len(CbsAt(cbs, Stage(st)))
Loop(st) == IF st.it < st.tot THEN [st EXCEPT !.ph = "step", !.a = 1, !.s = 0, !.k = 1, !.c = 1] ELSE [st EXCEPT !.ph = "final", !.c = 1]
Move(st) ==
    CASE st.ph = "init" -> Loop(st)
      [] st.ph = "decide" -> Loop(st)
      [] st.ph \in {"final", "stopped"} -> [st EXCEPT !.ph = "ret"]
      [] st.ph = "step" ->
           IF st.a > Len(Main) THEN [st EXCEPT !.ph = "decide", !.it = @ + 1]
           ELSE IF Main[st.a] # "SPECIES" THEN [st EXCEPT !.a = @ + 1, !.c = 1]
           ELSE IF st.s > 0 /\ st.k < Len(Species) THEN [st EXCEPT !.k = @ + 1, !.c = 1]
           ELSE IF NextEn(st) > 0 THEN [st EXCEPT !.s = NextEn(st), !.k = 1, !.c = 1]
           ELSE [st EXCEPT !.a = @ + 1, !.s = 0, !.k = 1, !.c = 1]
      [] OTHER -> st
RECURSIVE Norm(_, _, _)
Norm(cbs, st, halt) == IF st.ph \in {"idle", "ret"} \/ (halt /\ st.ph = "decide") THEN st
                       ELSE IF Stage(st) # "-" /\ Pending(cbs, st) THEN st ELSE Norm(cbs, Move(st), halt)
(* the next callback call, if the next observable is one: [cb, stage, species] *)
CanCall(cbs, st) == LET n == Norm(cbs, st, FALSE) IN n.ph \notin {"idle", "ret"}
NextCall(cbs, st) == LET n == Norm(cbs, st, FALSE) IN [cb |-> CbsAt(cbs, Stage(n))[n.c], stage |-> Stage(n), s |-> IF n.ph = "step" /\ Main[n.a] = "SPECIES" THEN n.s ELSE 0, it |-> n.it]
AfterCall(cbs, st) == LET n == Norm(cbs, st, FALSE) IN [n EXCEPT !.c = @ + 1]
CanAsk(cbs, st) == Norm(cbs, st, TRUE).ph = "decide"
AfterAsk(cbs, st, yes) == LET n == Norm(cbs, st, TRUE) IN IF yes THEN [n EXCEPT !.ph = "stopped", !.c = 1] ELSE Loop(n)
(* after a stop request the final stage may be left out entirely *)
CanRet(cbs, st) == (st.ph = "stopped" /\ st.c = 1) \/ Norm(cbs, st, FALSE).ph = "ret"
AfterRet(cbs, st) == [st EXCEPT !.ph = "idle", !.it = IF st.ph = "stopped" THEN @ ELSE Norm(cbs, st, FALSE).it]
Begin(st, n) == [st EXCEPT !.ph = "init", !.c = 1, !.tot = st.it + n]
BeginTotal(st, n) == [st EXCEPT !.ph = "init", !.c = 1, !.tot = n]
Toggle(st, s, on) == [st EXCEPT !.en[s] = on]
=============================================================================
