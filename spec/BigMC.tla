------------------------------- MODULE BigMC --------------------------------
(* The operators of Big on runs mean what OMap's mean on explicit maps: for *)
(* every map of U keys to generations 1..G, and every argument.             *)
EXTENDS Big, FiniteSets
CONSTANTS U, G
VARIABLES f, mm, nn, aa
vars == <<f, mm, nn, aa>>
M == INSTANCE OMap WITH NO <- 1, m <- mm, n <- nn, alive <- aa

\* the representation of a map, defined without the operators
Starts(h) == {k \in 1..U : h[k] # 0 /\ (k = 1 \/ h[k-1] # h[k])}
RunFrom(h, k) == <<k, CHOOSE e \in k..U : (\A x \in k..e : h[x] = h[k]) /\ (e = U \/ h[e+1] # h[k]), h[k]>>
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : \A y \in S : x <= y IN <<k>> \o Sorted(S \ {k})
Runs(h) == LET s == Sorted(Starts(h)) IN [i \in DOMAIN s |-> RunFrom(h, s[i])]

Init == f \in [1..U -> 0..G] /\ mm = <<f>> /\ nn = <<0>> /\ aa = <<TRUE>>
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Same == /\ Canonical(Runs(f))
        /\ \A k \in 1..U : Get(Runs(f), k) = f[k]
        /\ Total(Runs(f)) = M!Count(f)
Queries ==
  LET R == Runs(f) IN
  /\ \A k \in 1..U : /\ NotBefore(R, k) = M!LB(f, k)
                     /\ NotBefore(R, k + 1) = M!UB(f, k)
                     /\ LastBefore(R, k) = M!Pred(f, k)
                     /\ Index(R, k) = Cardinality({x \in 1..(k-1) : f[x] # 0})
                     /\ f[k] # 0 => Nth(R, Index(R, k)) = k
  /\ Nth(R, Total(R)) = 0 /\ Nth(R, -1) = 0
Updates ==
  LET R == Runs(f) IN
  \A lo \in 1..U : \A hi \in lo..U :
    /\ Remove(R, lo, hi) = Runs([k \in 1..U |-> IF lo <= k /\ k <= hi THEN 0 ELSE f[k]])
    /\ \A g \in 1..G :
         /\ Fill(R, lo, hi, g) = Runs([k \in 1..U |-> IF lo <= k /\ k <= hi /\ f[k] = 0 THEN g ELSE f[k]])
         /\ Cover(R, lo, hi, g) = Runs([k \in 1..U |-> IF lo <= k /\ k <= hi THEN g ELSE f[k]])
Parts ==
  LET R == Runs(f) IN
  \A a \in 0..Total(R) : \A b \in a..Total(R) :
    Part(R, a, b) = Runs([k \in 1..U |-> IF f[k] # 0 /\ Index(R, k) >= a /\ Index(R, k) < b THEN f[k] ELSE 0])
=============================================================================
