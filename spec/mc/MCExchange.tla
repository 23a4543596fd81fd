----------------------------- MODULE MCExchange -----------------------------
(* One rank, threads in any order: 2x1 / 2x2 patches, one species.            *)
EXTENDS ExchangeProto
P1(d, c) == [live |-> TRUE, pos |-> [a \in 1..2 |-> c[a] * 8 + (IF d[a] = 0 THEN 3 ELSE IF d[a] < 0 THEN -1 ELSE 9)], at |-> <<c, d>>]
AllD == [1..2 -> {-1, 0, 1}]
MCG == [np |-> <<2, 2>>, per |-> <<TRUE, FALSE>>, n |-> <<1, 1>>, lo |-> <<0, 0>>, hi |-> <<0, 0>>]
(* every patch: one particle leaving in any direction, one more leaving to the right, k free slots *)
MCInits == {[s \in 1..1 |-> [p \in PatchCoords(<<2, 2>>) |->
              (IF p = <<0, 0>> THEN <<P1(f[p], p), [P1(<<1, 0>>, p) EXCEPT !.at = <<p, <<9, 9>>>>]>> ELSE <<P1(f[p], p)>>)
              \o (IF p \in dz THEN <<[live |-> FALSE]>> ELSE <<>>)]] :
            f \in {h \in [PatchCoords(<<2, 2>>) -> AllD] : h[<<0,1>>] \in {<<1,-1>>, <<0, 0>>} /\ h[<<1,1>>] \in {<<-1,-1>>,<<1,1>>}},
            dz \in {{}, {<<1, 0>>}, PatchCoords(<<2, 2>>)}}
MCRanks == {[p \in PatchCoords(<<2, 2>>) |-> 0]}
=============================================================================
