----------------------------- MODULE Container -----------------------------
(***************************************************************************)
(* A particle container is a sequence of slots.  A slot is a record           *)
(*   id   identity            dead  is the slot free                          *)
(*   w0   weight is zero      ev    event flag (QED containers)                *)
(*   row  all attributes (opaque)                                            *)
(* Operations are given twice: what they must achieve (…OK, relational, used   *)
(* to judge the code) and one way to do it (the functions, used by the model    *)
(* to show that the demands are consistent and imply the invariants).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Live(s) == {i \in DOMAIN s : ~s[i].dead}
Ids(s) == {s[i].id : i \in DOMAIN s}
RangeOf(s) == {s[i] : i \in DOMAIN s}
Same(a, b) == a.id = b.id /\ a.dead = b.dead /\ a.ev = b.ev /\ a.row = b.row

InitOK(t, n, used) == /\ Len(t) = n
                      /\ \A i \in DOMAIN t : ~t[i].dead /\ ~t[i].ev /\ t[i].id \notin used
                      /\ Cardinality(Ids(t)) = n
GrowOK(s, t, n, used) ==
    IF n <= 0 THEN Len(t) = Len(s) /\ \A i \in DOMAIN s : Same(s[i], t[i])
    ELSE /\ Len(t) = Len(s) + n
         /\ \A i \in DOMAIN s : Same(s[i], t[i])
         /\ \A i \in (Len(s) + 1)..Len(t) : t[i].dead /\ t[i].w0 /\ ~t[i].ev /\ t[i].id \notin used
         /\ Cardinality({t[i].id : i \in (Len(s) + 1)..Len(t)}) = n
(* only dead slots disappear; live particles keep everything, in some order *)
ShrinkOK(s, t) ==
    /\ Len(t) <= Len(s)
    /\ Cardinality(Live(t)) = Cardinality(Live(s))
    /\ {[id |-> s[i].id, ev |-> s[i].ev, row |-> s[i].row] : i \in Live(s)}
         = {[id |-> t[i].id, ev |-> t[i].ev, row |-> t[i].row] : i \in Live(t)}
EqualOK(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Same(s[i], t[i])

VARIABLES slots, used, copy
vars == <<slots, used, copy>>
CONSTANTS MaxSlots, MaxId
Slot(i, d) == [id |-> i, dead |-> d, w0 |-> d, ev |-> FALSE, row |-> i]
Fresh(n) == [k \in 1..n |-> Slot(used + k, TRUE)]
Init == \E n \in 0..2 : slots = [k \in 1..n |-> Slot(k, FALSE)] /\ used = n /\ copy = <<>>
Grow(n) == /\ Len(slots) + n <= MaxSlots /\ used + n <= MaxId
           /\ slots' = slots \o Fresh(n) /\ used' = used + n /\ UNCHANGED copy
Use(i) == /\ slots[i].dead /\ slots' = [slots EXCEPT ![i].dead = FALSE, ![i].w0 = FALSE] /\ UNCHANGED <<used, copy>>
Flag(i) == /\ slots' = [slots EXCEPT ![i].ev = ~@] /\ UNCHANGED <<used, copy>>
Kill(i) == /\ ~slots[i].dead /\ slots' = [slots EXCEPT ![i].dead = TRUE] /\ UNCHANGED <<used, copy>>
Front(s) == SelectSeq(s, LAMBDA x : ~x.dead) \o SelectSeq(s, LAMBDA x : x.dead)
Shrink(k) == LET a == Cardinality(Live(slots))
             IN /\ a + k < Len(slots)
                /\ slots' = SubSeq(Front(slots), 1, a + k) /\ UNCHANGED <<used, copy>>
Copy == copy' = <<slots>> /\ UNCHANGED <<slots, used>>
Restore == copy # <<>> /\ slots' = copy[1] /\ UNCHANGED <<used, copy>>
Next == \/ \E n \in 1..2 : Grow(n)
        \/ \E i \in DOMAIN slots : Use(i) \/ Flag(i) \/ Kill(i)
        \/ \E k \in 0..1 : Shrink(k)
        \/ Copy \/ Restore
Spec == Init /\ [][Next]_vars
DistinctIds == Cardinality(Ids(slots)) = Len(slots) /\ \A i \in DOMAIN slots : slots[i].id <= used /\ slots[i].row = slots[i].id
Refines == [][\/ \E n \in 1..2 : GrowOK(slots, slots', n, 1..used)
              \/ ShrinkOK(slots, slots')
              \/ Len(slots) = Len(slots')
              \/ (copy # <<>> /\ EqualOK(slots', copy[1]))]_vars
(* a live particle disappears only by being killed or by going back to an earlier copy *)
NoLoss == [][\A i \in Live(slots) : \/ \E j \in Live(slots') : slots'[j].id = slots[i].id
                                    \/ \E k \in DOMAIN slots : Kill(k)
                                    \/ Restore]_vars
=============================================================================
