-------------------------------- MODULE TCkpt --------------------------------
(* Recorded runs with checkpoint callbacks (property I02).  cfg.dumps: the callbacks,   *)
(* each with its own directory: kind/iv (interval), keep (<= 0: unlimited).  Events:     *)
(* begin/step/ran with dirs = per directory the checkpoints' steps, the processes' files  *)
(* in each, all other entries; saves = per process the number of times it saved itself     *)
(* since the last event, early = per process and save the steps on disk at that moment.     *)
EXTENDS Retention, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Cfg == Traces[tr].cfg
Prev == Traces[tr].ev[l - 1].dirs
Set(s) == {s[i] : i \in DOMAIN s}
Ds == DOMAIN Cfg.dumps
DueD(d, s) == Cfg.dumps[d].kind # "never" /\ Due(s, Cfg.dumps[d].iv)
Keep(d) == IF Cfg.dumps[d].keep > 0 THEN Cfg.dumps[d].keep ELSE 0
DueSeq(s) == SelectSeq([d \in Ds |-> d], LAMBDA d : DueD(d, s))
Procs == 0..(Cfg.size - 1)
Complete(x) == \A i \in DOMAIN x.ranks : Set(x.ranks[i][2]) = Procs
Until(a, n) == [i \in 1..n |-> a + i - 1]
(* dirs after the dumps ds (a set of directories) at step s *)
Disk(e, ds, s) ==
    UNION {(IF Set(e.dirs[d].steps) = (IF d \in ds THEN AfterDump(Set(Prev[d].steps), s, Keep(d)) ELSE Set(Prev[d].steps)) THEN {}
            ELSE {IF d \in ds THEN "other checkpoints than the most recent ones remain" ELSE "a checkpoint appears or disappears without a dump"})
           \cup (IF e.dirs[d].other = Prev[d].other THEN {} ELSE {"something else than a checkpoint was changed"})
           \cup (IF Complete(e.dirs[d]) THEN {} ELSE {"a checkpoint lacks the file of a process"}) : d \in Ds}
(* nothing is removed before every process has saved itself *)
Early(e, ds) ==
    IF \A r \in DOMAIN e.early : \A i \in DOMAIN e.early[r] : i \in DOMAIN ds => Set(Prev[ds[i]].steps) \subseteq Set(e.early[r][i][ds[i]])
    THEN {} ELSE {"a checkpoint is removed before the new one is complete"}
Clauses(e) ==
    CASE e.op = "begin" -> {}
      [] e.op = "step" ->
           LET ds == DueSeq(e.s) IN
           Disk(e, Set(ds), e.s) \cup Early(e, ds)
           \cup (IF \A r \in DOMAIN e.saves : e.saves[r] = Len(ds) THEN {} ELSE {"dumps happen at the wrong steps"})
      [] OTHER ->
           (IF e.same = 1 THEN {} ELSE {"the processes do not run the same steps"})
           \cup (IF e.asked = 0
                 THEN (IF e.began = Until(e.from, e.n) /\ e.finals = 1 THEN {} ELSE {"a run without a request does not run to its end"})
                      \cup Disk(e, {}, 0) \cup (IF \A r \in DOMAIN e.saves : e.saves[r] = 0 THEN {} ELSE {"dumps without a request"})
                 ELSE (IF e.began = Until(e.from, e.step - e.from + 1) THEN {} ELSE {"a request does not end the run after the current step"})
                      \cup Disk(e, {e.dir}, e.step) \cup Early(e, <<e.dir>>)
                      \cup (IF \A r \in DOMAIN e.saves : e.saves[r] = 1 \/ (e.saves[r] = 0 /\ DueD(e.dir, e.step)) THEN {} ELSE {"a request does not dump exactly once"})
                      \cup (IF e.loaded = e.step + 1 THEN {} ELSE {"the requested checkpoint cannot be loaded"}))
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
