------------------------------ MODULE MCOutput ------------------------------
(* Several processes writing one chunked file: every selection of a small axis, every  *)
(* ownership of its patches.  A writer loads the chunks it touches, changes its cells    *)
(* there and writes the chunks back.  In turns the file ends complete; written freely it    *)
(* may not ("free", refuted).  Patch shares are computed as the code computes them (first     *)
(* and last selected cell of the patch) and must be those of the selection.                      *)
EXTENDS Output
CONSTANTS NP, M, Ranks, Chunk, Variant
VARIABLES s, own, file, cache, pc, turn
vars == <<s, own, file, cache, pc, turn>>
N == NP * M
Sels == {<<0, k>> : k \in {-1, 1}} \cup {<<1, 1, a, 1, b, c>> : a \in {0, 1, 2, -3}, b \in {N, N - 1, -2}, c \in 1..3} \cup {<<1, 0, 0, 0, 0, 2>>}
Q == Sel(s, N)
Chunks == 0..((Len(Q) - 1) \div Chunk)
InChunk(c) == {i \in DOMAIN Q : (i - 1) \div Chunk = c}
CeilDiv(a, b) == -((-a) \div b)
(* as the writer computes it: from the first and the last selected cell of the patch *)
Mine(p) == LET start == Q[1]
               step == IF Len(Q) = 1 THEN 1 ELSE Q[2] - Q[1]
               stop == Q[Len(Q)] + 1
               o == p * M
               first == start + CeilDiv(IF o > start THEN o - start ELSE 0, step) * step
               lastin == (IF stop < o + M THEN stop ELSE o + M) - 1
               last == start + ((lastin - start) \div step) * step
           IN IF last < first THEN {} ELSE {(first - start) \div step + 1 + k : k \in 0..((last - first) \div step)}
Init == /\ s \in Sels /\ own \in {f \in [0..(NP - 1) -> Ranks] : {f[p] : p \in DOMAIN f} = Ranks}
        /\ file = [i \in DOMAIN Sel(s, N) |-> -1] /\ cache = [r \in Ranks |-> <<>>] /\ pc = [r \in Ranks |-> "open"] /\ turn = 0
Cells(r) == UNION {Mine(p) : p \in {p \in 0..(NP - 1) : own[p] = r}}
May(r) == Variant = "free" \/ turn = r
(* the cells of the touched chunks as read, with the own cells set *)
Fill(r) == /\ pc[r] = "open" /\ May(r)
           /\ LET T == UNION {InChunk(c) : c \in {c \in Chunks : InChunk(c) \cap Cells(r) # {}}}
              IN cache' = [cache EXCEPT ![r] = [i \in T |-> IF i \in Cells(r) THEN Q[i] ELSE file[i]]]
           /\ pc' = [pc EXCEPT ![r] = "close"] /\ UNCHANGED <<s, own, file, turn>>
Close(r) == /\ pc[r] = "close"
            /\ file' = [i \in DOMAIN file |-> IF i \in DOMAIN cache[r] THEN cache[r][i] ELSE file[i]]
            /\ pc' = [pc EXCEPT ![r] = "done"] /\ turn' = turn + 1 /\ UNCHANGED <<s, own, cache>>
Next == \E r \in Ranks : Fill(r) \/ Close(r)
Spec == Init /\ [][Next]_vars
Complete == (\A r \in Ranks : pc[r] = "done") => \A i \in DOMAIN file : file[i] = Q[i]
Shares == \A p \in 0..(NP - 1) : Mine(p) = Share(Q, p * M, M)
=============================================================================
