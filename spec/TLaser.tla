------------------------------- MODULE TLaser -------------------------------
(* Runs with lasers on the left boundary (property N02).  Fields in units of 2^-20 of the summed peak.  *)
(*   writes  r: <<step, something changed, something changed elsewhere>>; able: xmin absorbs; stops: the    *)
(*           first step without each laser; plane: no laser is focused                                         *)
(*   split   a, b: the six fields on two divisions of the domain                                                  *)
(*   sum     whole: the six fields of the summed lasers; parts: those of each alone                                  *)
(*   mark    e, w: per moment what the lasers leave on the plane and the waves asked for, in units of a        *)
(*           plane wave; ok: that one is the same everywhere outside the layers                                  *)
(*   clear   a, b: fields inside with and without a dark laser on the boundary; top: the wave coming back          *)
(*   probe   e, w: per step the transverse fields behind the plane and those of the wave asked for                      *)
EXTENDS Laser, Json, IOUtils, TLC, FiniteSetsExt
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Bad == -777777777
Fine == 8
Q == 1048576
Sum(parts, f, i) == MapThenSumSet(LAMBDA k : parts[k][f][i], DOMAIN parts)
WritesClauses(e) ==
    (IF \A i \in DOMAIN e.r : e.r[i][3] = 0 THEN {} ELSE {"a laser changed something besides the magnetic field of its plane"})
    \cup (IF \A i \in DOMAIN e.r : e.r[i][2] = 1 => e.able = 1 THEN {} ELSE {"a laser entered through a boundary that does not absorb"})
    \cup (IF \A i \in DOMAIN e.r : e.r[i][2] = 1 => Shining(e.stops, e.r[i][1]) # {} THEN {} ELSE {"a laser shines after its end"})
    \cup (IF \A i \in DOMAIN e.r : (e.able = 1 /\ e.r[i][1] > 3 /\ Shining(e.stops, e.r[i][1]) # {}) => e.r[i][2] = 1 THEN {} ELSE {"a laser ended early"})
SplitClauses(e) == IF \A f \in 1..6 : AllWithin(e.a[f], e.b[f], Fine) /\ \A i \in DOMAIN e.a[f] : e.a[f][i] # Bad THEN {}
                   ELSE {"the wave depends on the division of the domain"}
SumClauses(e) == IF \A f \in 1..6 : \A i \in DOMAIN e.whole[f] : Within(e.whole[f][i], Sum(e.parts, f, i), Fine) THEN {} ELSE {"a sum of lasers is not their superposition"}
ProbeClauses(e) ==
    LET n == MapThenSumSet(LAMBDA i : Len(e.e[i]), DOMAIN e.e)
        d == MapThenSumSet(LAMBDA i : MapThenSumSet(LAMBDA j : Abs(e.e[i][j] - e.w[i][j]) \div 256, DOMAIN e.e[i]), DOMAIN e.e)
        m == MapThenSumSet(LAMBDA i : MapThenSumSet(LAMBDA j : Abs(e.w[i][j]) \div 256, DOMAIN e.e[i]), DOMAIN e.e)
    IN (IF \A i \in DOMAIN e.e : AllWithin(e.e[i], e.w[i], e.tol) THEN {} ELSE {"the wave is not the one asked for"})
       \cup (IF m > 0 /\ d \div n <= e.tol \div 700 THEN {} ELSE {"the wave differs on average from the one asked for"})
MarkClauses(e) ==
    (IF e.ok = 1 THEN {} ELSE {"a plane wave does not enter evenly between the layers"})
    \cup (IF \A i \in DOMAIN e.e : AllWithin(e.e[i], e.w[i], Q \div 25) THEN {} ELSE {"the boundary is not driven with the wave asked for"})
ClearClauses(e) == IF \A i \in DOMAIN e.a : AllWithin(e.a[i], e.b[i], e.top \div 12) THEN {} ELSE {"the plane of a laser throws waves back"}
Clauses(e) == CASE e.op = "writes" -> WritesClauses(e)
                [] e.op = "split" -> SplitClauses(e)
                [] e.op = "mark" -> MarkClauses(e)
                [] e.op = "clear" -> ClearClauses(e)
                [] e.op = "sum" -> SumClauses(e)
                [] OTHER -> ProbeClauses(e)
Init == tr \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l, bad>>)
              /\ bad = {}
              /\ l' = l + 1 /\ tr' = tr
              /\ IF l = Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
