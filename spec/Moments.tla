------------------------------- MODULE Moments -------------------------------
(* Slots of a species whose momenta are set: [live, u, g, w].  g stands for the Lorentz     *)
(* factor that belongs to u; draws are numbered, every draw is used once.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Gam(u) == u * u + 1
Fix(s) == [s EXCEPT !.g = Gam(s.u)]
SetTo(s, m, add) == Fix([s EXCEPT !.u = IF add THEN s.u + m ELSE m])
(* what a live slot must hold after setting momentum m (or none: no = TRUE) and a thermal part d *)
Wanted(s, m, d, add) == IF s.live THEN Fix([s EXCEPT !.u = (IF add THEN s.u ELSE 0) + m + d]) ELSE s
=============================================================================
