----------------------------- MODULE MCDivision -----------------------------
(* The search for a division, one pair of divisors after the other, as the code does it: *)
(* the first of the fewest patches not below Want, nearest to square; none: the smallest  *)
(* divisors.  Rule "and" asks every axis to fit, "or" any one of them (the code as found), *)
(* "drop" forgets the given numbers, "count" does not look for thickness at all.            *)
EXTENDS Division, TLC
CONSTANTS Ns, Ngs, Pmls, Wants, Rule
VARIABLES n, given, ng, pml, want, todo, best
vars == <<n, given, ng, pml, want, todo, best>>
Some(a) == IF given[a] # 0 /\ Rule # "drop" THEN {given[a]} ELSE Divisors(n[a]) \ {1, n[a]}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x
Ok(d) == LET f(a) == (given[a] # 0 /\ Rule # "drop") \/ Fits(n[a], d[a], ng, pml)
         IN CASE Rule = "or" -> f(1) \/ f(2) [] Rule = "count" -> TRUE [] OTHER -> f(1) /\ f(2)
Sq(d) == Abs(n[1] \div d[1] - n[2] \div d[2])
Init == /\ n \in Ns \X Ns /\ ng \in Ngs /\ pml \in Pmls /\ want \in Wants
        /\ given \in {<<0, 0>>} \cup {<<d, 0>> : d \in Divisors(n[1])} \cup {<<0, d>> : d \in Divisors(n[2])}
        /\ Some(1) # {} /\ Some(2) # {}
        /\ todo = Some(1) \X Some(2) /\ best = <<>>
\* in the order of the loops
First(S) == CHOOSE d \in S : \A x \in S : d[1] < x[1] \/ (d[1] = x[1] /\ d[2] <= x[2])
Next == /\ todo # {}
        /\ LET d == First(todo)
           IN /\ todo' = todo \ {d}
              /\ best' = IF Prod(d) >= want /\ Ok(d) /\ (best = <<>> \/ (Prod(d) <= Prod(best) /\ Sq(d) <= Sq(best))) THEN d ELSE best
        /\ UNCHANGED <<n, given, ng, pml, want>>
Spec == Init /\ [][Next]_vars
Answer == IF best = <<>> THEN <<Least(Some(1)), Least(Some(2))>> ELSE best
Usable == todo = {} /\ Grids(n, given, ng, pml) # {} => Answer \in Allowed(n, given, ng, pml, want, want)
=============================================================================
