------------------------------- MODULE Sort -------------------------------
(***************************************************************************)
(* Bucket sort of one patch's storage.  Bucket(x) is the spatial bucket of a   *)
(* particle; a free slot inherits the bucket of the slot before it.  Only       *)
(* slots standing in a foreign bucket range move: they are gathered bucket by    *)
(* bucket into a buffer and written back, in order, to the misplaced slots,      *)
(* one attribute array after the other (here: two, id and x, plus the dead       *)
(* flag), each with its own running counters.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NSlots, NB, MaxOps
VARIABLES id, x, dead, bmin, bmax, sorted, ops
vars == <<id, x, dead, bmin, bmax, sorted, ops>>
Slots == 1..NSlots
Bk == 0..(NB - 1)
(* positions are bucket numbers, or one beyond either end *)
BucketOf(p) == IF p \in Bk THEN p ELSE NB - 1
RECURSIVE Inherit(_, _, _)
Inherit(xs, ds, k) == IF ~ds[k] THEN BucketOf(xs[k]) ELSE IF k = 1 THEN 0 ELSE Inherit(xs, ds, k - 1)
Index(xs, ds) == [k \in Slots |-> Inherit(xs, ds, k)]
Count(ix, b) == Cardinality({k \in Slots : ix[k] = b})
RECURSIVE BMin(_, _)
BMin(ix, b) == IF b = 0 THEN 0 ELSE BMin(ix, b - 1) + Count(ix, b - 1)
BMax(ix, b) == BMin(ix, b) + Count(ix, b)
Ref(ix) == [k \in Slots |-> CHOOSE b \in Bk : BMin(ix, b) < k /\ k <= BMax(ix, b)]
Wrong(ix) == {k \in Slots : ix[k] # Ref(ix)[k]}
(* slot k (misplaced) goes to the j-th misplaced slot, j = its place in the gather order *)
Place(ix, k) == Cardinality({m \in Wrong(ix) : ix[m] < ix[k] \/ (ix[m] = ix[k] /\ m <= k)})
Nth(S, j) == CHOOSE k \in S : Cardinality({m \in S : m <= k}) = j
Perm(ix) == [t \in Slots |-> IF t \in Wrong(ix) THEN CHOOSE k \in Wrong(ix) : Nth(Wrong(ix), Place(ix, k)) = t ELSE t]
Apply(s, p) == [t \in Slots |-> s[p[t]]]
Init == /\ id = [k \in Slots |-> k] /\ x \in [Slots -> -1..NB] /\ dead \in [Slots -> BOOLEAN]
        /\ bmin = [b \in Bk |-> 0] /\ bmax = [b \in Bk |-> 0] /\ sorted = FALSE /\ ops = 0
DoSort == LET ix == Index(x, dead) p == Perm(ix)
          IN /\ id' = Apply(id, p) /\ x' = Apply(x, p) /\ dead' = Apply(dead, p)
             /\ bmin' = [b \in Bk |-> BMin(ix, b)] /\ bmax' = [b \in Bk |-> BMax(ix, b)]
             /\ sorted' = TRUE /\ UNCHANGED ops
Change == /\ ops < MaxOps /\ ops' = ops + 1 /\ sorted' = FALSE
          /\ \E k \in Slots : \/ ~dead[k] /\ \E d \in {-1, 1} : x[k] + d \in -1..NB /\ x' = [x EXCEPT ![k] = @ + d] /\ UNCHANGED dead
                              \/ dead' = [dead EXCEPT ![k] = ~@] /\ UNCHANGED x
          /\ UNCHANGED <<id, bmin, bmax>>
Next == (~sorted /\ DoSort) \/ Change
Spec == Init /\ [][Next]_vars
(* what sorting must achieve, for any storage and any table *)
TableOK(n, lo, hi, B) == /\ lo[0] = 0 /\ hi[B - 1] = n
                         /\ \A b \in 0..(B - 1) : lo[b] <= hi[b] /\ (b > 0 => lo[b] = hi[b - 1])
Exact == sorted => /\ TableOK(NSlots, bmin, bmax, NB)
                   /\ \A k \in Slots : \A b \in Bk : ~dead[k] /\ x[k] \in Bk => ((bmin[b] < k /\ k <= bmax[b]) <=> x[k] = b)
Permutes == [][sorted' /\ ~sorted =>
                 /\ {<<id[k], x[k], dead[k]>> : k \in Slots} = {<<id'[k], x'[k], dead'[k]>> : k \in Slots}]_vars
Stable == [][sorted' /\ ~sorted /\ x = x' /\ dead = dead' => id' = id]_vars
=============================================================================
