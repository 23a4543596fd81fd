------------------------------- MODULE Window -------------------------------
(* A window that follows a given velocity in whole patches.  U: units of way per patch;   *)
(* the accumulator starts a whole patch ahead, so the window leads what it follows.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Acc0(U) == U
(* by how many patches a call moves the window *)
Shift(U, acc, v) == IF acc + v >= U THEN 1 ELSE IF acc + v <= -U THEN -1 ELSE 0
Rest(U, acc, v) == acc + v - U * Shift(U, acc, v)
(* the column of a patch after the shift; the one that fell behind becomes the new front *)
Column(NP, c, s) == (c - s) % NP
Recycled(NP, c, s) == c - s < 0 \/ c - s >= NP
=============================================================================
