------------------------------ MODULE MCWindow ------------------------------
(* The columns of a moving window under any sequence of velocities.  Content is a tag:    *)
(* where it was created and when; the plasma of a region is the one configured there.        *)
(* Variants: "origin" moves the recycled column by one patch only, "keep" keeps its content,   *)
(* "table" keeps the neighbours, "again" does not take the patch off the accumulator.            *)
EXTENDS Window
CONSTANTS NP, U, Vel, Steps, Variant
VARIABLES coord, org, tag, plasma, nb, acc, off, way, t
vars == <<coord, org, tag, plasma, nb, acc, off, way, t>>
VelBoth == {-4, -1, 0, 2, 5}
VelFwd == {0, 1, 3, 5}
VelAll == {-5, -3, -1, 0, 1, 2, 5}
P == 0..(NP - 1)
Plasma(x) == x % 3
Right(co) == [i \in P |-> IF co[i] = NP - 1 THEN -1 ELSE CHOOSE j \in P : co[j] = co[i] + 1]
Init == /\ coord = [i \in P |-> i] /\ org = [i \in P |-> i] /\ tag = [i \in P |-> <<i, 0>>]
        /\ plasma = [i \in P |-> Plasma(i)] /\ nb = Right([i \in P |-> i])
        /\ acc = Acc0(U) /\ off = 0 /\ way = 0 /\ t = 0
Call(v) ==
    LET s == Shift(U, acc, v)
        new == {i \in P : s # 0 /\ Recycled(NP, coord[i], s)}
        co == [i \in P |-> Column(NP, coord[i], s)]
        og == [i \in P |-> IF i \in new THEN org[i] + s * (IF Variant = "origin" THEN 1 ELSE NP) ELSE org[i]]
    IN /\ t < Steps /\ t' = t + 1
       /\ way' = way + v /\ off' = off + s
       /\ acc' = IF Variant = "again" THEN acc + v ELSE Rest(U, acc, v)
       /\ coord' = co /\ org' = og
       /\ tag' = [i \in P |-> IF i \in new /\ Variant # "keep" THEN <<og[i], t + 1>> ELSE tag[i]]
       /\ plasma' = [i \in P |-> IF i \in new THEN Plasma(og[i]) ELSE plasma[i]]
       /\ nb' = IF Variant = "table" THEN nb ELSE Right(co)
Next == \E v \in Vel : Call(v)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Complete == {coord[i] : i \in P} = P /\ \A i \in P : org[i] = off + coord[i]
Neighbours == \A i \in P : (nb[i] = -1) = (coord[i] = NP - 1) /\ (nb[i] # -1 => org[nb[i]] = org[i] + 1)
Content == \A i \in P : tag[i][1] = org[i] /\ plasma[i] = Plasma(org[i])
Follows == t > 0 => off * U - way >= 0 /\ off * U - way < 2 * U
Forward == (\A v \in Vel : v >= 0) /\ t > 0 => off * U - way <= U
Stays == [][\A i \in P : org'[i] = org[i] => tag'[i] = tag[i] /\ plasma'[i] = plasma[i]]_vars
Steady == [][off' - off \in {-1, 0, 1}]_vars
=============================================================================
