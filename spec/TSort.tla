------------------------------- MODULE TSort -------------------------------
(* Sorting of recorded patches (property F01).  A scenario fixes the bucket     *)
(* layout: nb buckets per axis, each bw[a] eighths of a cell wide.  Each event  *)
(* logs one patch before and after one sort: rows are                          *)
(*   [dead, x, y, (z), id, attributes...], positions in eighths of a cell from   *)
(* the lower edge of cell 0, and the flattened table lo/hi.  The x numbering     *)
(* may be mirrored if there is one bucket across; a sorter keeps its choice.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, ori
vars == <<tr, l, ori>>
S == INSTANCE Sort WITH NSlots <- 1, NB <- 1, MaxOps <- 0, id <- 0, x <- 0, dead <- 0, bmin <- 0, bmax <- 0, sorted <- FALSE, ops <- 0
D(e) == Len(e.nb)
Cell(e, row) == [a \in 1..D(e) |-> row[a + 1] \div e.bw[a]]
Inside(e, row) == \A a \in 1..D(e) : row[a + 1] >= 0 /\ Cell(e, row)[a] < e.nb[a]
Flat(e, c, mirrored) == LET cx == IF mirrored THEN e.nb[1] - 1 - c[1] ELSE c[1]
                        IN IF D(e) = 2 THEN cx * e.nb[2] + c[2] ELSE (cx * e.nb[2] + c[2]) * e.nb[3] + c[3]
NBk(e) == IF D(e) = 2 THEN e.nb[1] * e.nb[2] ELSE e.nb[1] * e.nb[2] * e.nb[3]
Live(rows) == {i \in DOMAIN rows : rows[i][1] = 0}
Fits(e, m) == \A i \in Live(e.after) : Inside(e, e.after[i]) =>
                 LET b == Flat(e, Cell(e, e.after[i]), m) + 1 IN e.lo[b] < i /\ i <= e.hi[b]
Oris(e) == {m \in ori[e.sorter + 1] : (m => e.mirror_ok) /\ Fits(e, m)}
Clauses(e) ==
    LET B == NBk(e) IN
    (IF Len(e.before) = Len(e.after) THEN {} ELSE {"sorting changed the number of slots"})
    \cup (IF {e.before[i] : i \in Live(e.before)} = {e.after[i] : i \in Live(e.after)} /\ Cardinality(Live(e.before)) = Cardinality(Live(e.after))
          THEN {} ELSE {"sorting lost, copied or tore a live particle"})
    \cup (IF Len(e.lo) = B /\ Len(e.hi) = B /\ S!TableOK(Len(e.after), [b \in 0..(B-1) |-> e.lo[b+1]], [b \in 0..(B-1) |-> e.hi[b+1]], B)
          THEN {} ELSE {"the bucket table does not partition the storage"})
    \cup (IF Oris(e) # {} THEN {} ELSE {"a live particle stands outside its bucket's range"})
Init == tr \in DOMAIN Traces /\ l = 1 /\ ori = [s \in 1..Traces[tr].cfg.nsort |-> {TRUE, FALSE}]
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l]
               bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ ori' = [ori EXCEPT ![e.sorter + 1] = Oris(e)]
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
