---------------------------- MODULE MCExchangeMPI ----------------------------
(* Every assignment of 3x1 periodic patches to 1..3 ranks, two species in flight. *)
EXTENDS ExchangeProto
Ps == PatchCoords(<<3, 1>>)
P1(d, c, s) == [live |-> TRUE, pos |-> [a \in 1..2 |-> c[a] * 8 + (IF d[a] = 0 THEN 3 ELSE IF d[a] < 0 THEN -1 ELSE 9)], at |-> <<c, s>>]
MCG == [np |-> <<3, 1>>, per |-> <<TRUE, TRUE>>, n |-> <<1, 1>>, lo |-> <<0, 0>>, hi |-> <<0, 0>>]
MCInitsAll == {[s \in 1..2 |-> [p \in Ps |-> <<P1(IF s = 1 THEN f[p] ELSE h, p, s)>> \o (IF p[1] = 1 THEN <<[live |-> FALSE]>> ELSE <<>>)]] :
            f \in [Ps -> {<<-1, 0>>, <<1, 1>>, <<0, 0>>}], h \in {<<1, 0>>, <<-1, 1>>}}
MCRanks == {m \in [Ps -> 0..2] : m[<<0,0>>] = 0 /\ m[<<1,0>>] \in 0..1}
MCInits == {[s \in 1..2 |-> [p \in Ps |-> <<P1(IF s = 1 THEN f[p] ELSE <<-1, 1>>, p, s)>> \o (IF p[1] = 1 THEN <<[live |-> FALSE]>> ELSE <<>>)]] :
            f \in {h \in [Ps -> {<<-1, 0>>, <<1, 1>>, <<0, 0>>}] : h[<<0, 0>>] = <<1, 1>>}}
=============================================================================
