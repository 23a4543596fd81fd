------------------------------ MODULE Maxwell ------------------------------
(* The staggered-grid field update on the whole grid (property N01).  A component  *)
(* is a flat sequence over the global grid, row-major, N = <<nx, ny, nz>> (nz = 1   *)
(* in two dimensions).  Fields are measured so that one half step of one axis has     *)
(* the coefficient K[a]/8 (K[a] = 4 c dt / dx_a; 0 for a missing axis).               *)
(* Operators return eight times the change.                                            *)
EXTENDS Integers, Sequences, FiniteSets
Pos(N, g) == LET h == g - 1 IN <<h \div (N[2] * N[3]), (h \div N[3]) % N[2], h % N[3]>>
Flat(N, c) == (c[1] * N[2] + c[2]) * N[3] + c[3] + 1
Sh(N, g, a, d) == LET c == Pos(N, g) IN Flat(N, [c EXCEPT ![a] = (@ + d + N[a]) % N[a]])
Fwd(N, f, g, a) == f[Sh(N, g, a, 1)] - f[g]
Bwd(N, f, g, a) == f[g] - f[Sh(N, g, a, -1)]
(* change of E (components 1..3) from B (4..6), and of B from E, times 8 *)
DE(N, K, F, c, g) ==
    CASE c = 1 -> K[2] * Bwd(N, F[6], g, 2) - K[3] * Bwd(N, F[5], g, 3)
      [] c = 2 -> K[3] * Bwd(N, F[4], g, 3) - K[1] * Bwd(N, F[6], g, 1)
      [] c = 3 -> K[1] * Bwd(N, F[5], g, 1) - K[2] * Bwd(N, F[4], g, 2)
DB(N, K, F, c, g) ==
    CASE c = 4 -> K[3] * Fwd(N, F[2], g, 3) - K[2] * Fwd(N, F[3], g, 2)
      [] c = 5 -> K[1] * Fwd(N, F[3], g, 1) - K[3] * Fwd(N, F[1], g, 3)
      [] c = 6 -> K[2] * Fwd(N, F[1], g, 2) - K[1] * Fwd(N, F[2], g, 1)
=============================================================================
