------------------------------- MODULE MCLoop -------------------------------
(* All runs of the loop with up to MaxCb callbacks, NS species, MaxRuns runs.    *)
EXTENDS Loop, TLC
CONSTANTS NS, MaxCb, MaxRuns, MaxN, MaxTog, StagePool, Variant
VARIABLES cbs, st, log, runs, tog, asked, done
vars == <<cbs, st, log, runs, tog, asked, done>>
Seqs == UNION {[1..n -> StagePool] : n \in 0..MaxCb}
Init == cbs \in Seqs /\ st = Fresh(NS) /\ log = <<>> /\ runs = 0 /\ tog = 0 /\ asked = FALSE /\ done = 0
Run == /\ st.ph = "idle" /\ runs < MaxRuns
       /\ \E n \in 0..MaxN : st' = (IF Variant = "total" THEN BeginTotal(st, n) ELSE Begin(st, n)) /\ done' = done + n
       /\ runs' = runs + 1 /\ UNCHANGED <<cbs, log, tog, asked>>
Call == /\ CanCall(cbs, st)
        /\ log' = Append(log, NextCall(cbs, st) @@ [run |-> runs, en |-> st.en])
        /\ st' = AfterCall(cbs, st) /\ UNCHANGED <<cbs, runs, tog, asked, done>>
Tog == /\ st.ph # "idle" /\ tog < MaxTog /\ Len(log) > 0 /\ st.c > 1
       /\ \E s \in 1..NS : st' = Toggle(st, s, ~st.en[s])
       /\ tog' = tog + 1 /\ UNCHANGED <<cbs, log, runs, asked, done>>
Ask == /\ CanAsk(cbs, st) /\ ~asked
       /\ st' = (IF Variant = "early" THEN [AfterAsk(cbs, st, TRUE) EXCEPT !.it = @ - 1] ELSE AfterAsk(cbs, st, TRUE))
       /\ done' = Norm(cbs, st, TRUE).it
       /\ asked' = TRUE /\ UNCHANGED <<cbs, log, runs, tog>>
AskNo == /\ CanAsk(cbs, st) /\ st' = AfterAsk(cbs, st, FALSE) /\ UNCHANGED <<cbs, log, runs, tog, asked, done>>
Ret == /\ CanRet(cbs, st) /\ st' = AfterRet(cbs, st) /\ UNCHANGED <<cbs, log, runs, tog, asked, done>>
Next == Run \/ Call \/ Tog \/ Ask \/ AskNo \/ Ret
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Calls(i, j) == {k \in DOMAIN log : log[k].cb = i /\ log[k].it = j}
PerStep(i) == StageOf(cbs[i]) \notin {"init", "final"}
PerSpecies(i) == \E k \in DOMAIN Species : Species[k] = StageOf(cbs[i])
(* declarative order of two calls of one step *)
Place(x) == IF \E k \in DOMAIN Main : Main[k] = x.stage THEN <<CHOOSE k \in DOMAIN Main : Main[k] = x.stage, 0, 0>>
            ELSE <<3, x.s, CHOOSE k \in DOMAIN Species : Species[k] = x.stage>>
RECURSIVE Lex(_, _)
Lex(x, y) == Len(x) > 0 /\ (Head(x) < Head(y) \/ (Head(x) = Head(y) /\ Lex(Tail(x), Tail(y))))
InStep(x) == x.stage \notin {"init", "final"}
Ordered == \A k \in 2..Len(log) : LET x == log[k - 1] y == log[k] IN
              (InStep(x) /\ InStep(y)) => Lex(<<x.it>> \o Place(x) \o <<x.cb>>, <<y.it>> \o Place(y) \o <<y.cb>>)
(* at rest: every callback was called once in every completed step, per-species ones once per enabled species *)
Complete == st.ph = "idle" =>
   \A i \in DOMAIN cbs :
      /\ PerStep(i) /\ ~PerSpecies(i) => \A j \in 0..(st.it - 1) : Cardinality(Calls(i, j)) = 1
      /\ PerSpecies(i) /\ tog = 0 => \A j \in 0..(st.it - 1) : {log[k].s : k \in Calls(i, j)} = 1..NS /\ Cardinality(Calls(i, j)) = NS
      /\ PerStep(i) => Calls(i, st.it) = {} /\ \A k \in DOMAIN log : log[k].cb = i => log[k].it < st.it
      /\ StageOf(cbs[i]) = "init" => Cardinality({k \in DOMAIN log : log[k].cb = i}) = runs
      /\ StageOf(cbs[i]) = "final" => Cardinality({k \in DOMAIN log : log[k].cb = i}) \in (IF asked THEN {runs - 1, runs} ELSE {runs})
FrozenSkipped == \A k \in DOMAIN log : log[k].s > 0 =>
                    \E m \in 1..k : log[m].it = log[k].it /\ log[m].en[log[k].s]
(* running n then m steps is running n + m *)
Additive == st.ph = "idle" /\ ~asked => st.it = done
StopExact == st.ph = "idle" /\ asked => st.it >= 0 /\ (runs = 1 => st.it = done)
=============================================================================
