-------------------------------- MODULE TLoop --------------------------------
(* Recorded runs against the Loop machine (property H01).  Events: run, call (a     *)
(* callback body runs; tq = time in thousandths of dt), toggle (a species, inside a   *)
(* callback), stop (the stop callback answered), ret; rank starts another process's   *)
(* view of the same runs.                                                             *)
EXTENDS Loop, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st
vars == <<tr, l, st>>
Cfg == Traces[tr].cfg
Cbs == Cfg.stages
Time(e, it) == e.tq - 1000 * it \in -2..2
Clauses(e) ==
    CASE e.op = "call" ->
           IF ~CanCall(Cbs, st) THEN {"a callback is called when the run should have returned"}
           ELSE LET x == NextCall(Cbs, st)
                IN (IF e.cb = x.cb THEN {} ELSE {"callback called out of order or left out (expected number " \o ToString(x.cb) \o " at " \o x.stage \o ")"})
                   \cup (IF x.s > 0 => e.ispec = x.s - 1 THEN {} ELSE {"wrong species at a per-species stage"})
                   \cup (IF e.it = x.it THEN {} ELSE {"wrong step counter"})
                   \cup (IF Time(e, x.it) THEN {} ELSE {"wrong time"})
      [] e.op = "stop" -> IF CanAsk(Cbs, st) THEN {} ELSE {"asked to stop in the middle of a step"}
      [] e.op = "ret" -> IF ~CanRet(Cbs, st) THEN {"the run returned early, or left callbacks out"}
                         ELSE (IF e.it = AfterRet(Cbs, st).it THEN {} ELSE {"wrong step counter after the run"})
                              \cup (IF Time(e, AfterRet(Cbs, st).it) THEN {} ELSE {"wrong time after the run"})
      [] OTHER -> {}
Step(e) == CASE e.op = "rank" -> Fresh(Cfg.ns)
             [] e.op = "run" -> IF e.mode = "add" THEN Begin(st, e.n) ELSE BeginTotal(st, e.n)
             [] e.op = "call" -> AfterCall(Cbs, st)
             [] e.op = "toggle" -> Toggle(st, e.s, e.on = 1)
             [] e.op = "stop" -> AfterAsk(Cbs, st, e.ans = 1)
             [] e.op = "ret" -> AfterRet(Cbs, st)
Init == tr \in DOMAIN Traces /\ l = 1 /\ st = Fresh(Traces[tr].cfg.ns)
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr /\ st' = Step(e)
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
