----------------------------- MODULE MCInterval -----------------------------
(* A clock that accumulates dt with rounding errors, and the firing test on it:     *)
(* Unit ticks per step, errors up to Err ticks, tolerance Eps ticks.                  *)
EXTENDS Interval, TLC
CONSTANTS K, As, Bs, Unit, Err, Eps
VARIABLES k, t, a, b, fired
vars == <<k, t, a, b, fired>>
Trig(x) == ((x + Eps) * b) \div (a * Unit) # ((x + Eps - Unit) * b) \div (a * Unit)
Init == a \in As /\ b \in Bs /\ k = 0 /\ t = 0 /\ fired = (IF Trig(0) THEN {0} ELSE {})
Next == /\ k < K /\ k' = k + 1
        /\ t' \in (Unit * k' - Err)..(Unit * k' + Err)
        /\ fired' = IF Trig(t') THEN fired \cup {k'} ELSE fired
        /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
FormOK == \A i \in 0..k : (i \in Due(a, b, k)) = Fires(a, b, i)
Right == fired = {i \in 0..k : Fires(a, b, i)}
=============================================================================
