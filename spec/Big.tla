-------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* The ordered containers at a size where OMap's explicit maps would be too *)
(* large: hundreds of thousands of elements.  The contents are a sequence   *)
(* of runs <<lo, hi, g>>: all keys lo..hi are present and hold the values   *)
(* of generation g (the value is a function of key and generation, which    *)
(* the driver checks).  Runs ascend, and neighbouring runs that touch have  *)
(* different generations, so every contents has exactly one representation. *)
(* BigMC checks the operators on runs against OMap's definitions.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

RECURSIVE Total(_)
Total(R) == IF R = <<>> THEN 0 ELSE (R[1][2] - R[1][1] + 1) + Total(Tail(R))

\* the part of R within lo..hi
Clip(R, lo, hi) ==
  LET In(r) == r[1] <= hi /\ r[2] >= lo
      S == SelectSeq(R, In)
  IN [i \in DOMAIN S |-> <<Max(S[i][1], lo), Min(S[i][2], hi), S[i][3]>>]
TOP == 1000000000
Before(R, k) == Clip(R, 0, k - 1)
After(R, k)  == Clip(R, k + 1, TOP)

\* joins two sequences of runs, the second one after the first
Join(A, B) ==
  IF A = <<>> THEN B ELSE IF B = <<>> THEN A
  ELSE LET a == A[Len(A)] b == B[1] IN
       IF a[2] + 1 = b[1] /\ a[3] = b[3]
       THEN SubSeq(A, 1, Len(A) - 1) \o <<<<a[1], b[2], a[3]>>>> \o Tail(B)
       ELSE A \o B

\* one run, if there is anything in it
Run(lo, hi, g) == IF lo <= hi THEN <<<<lo, hi, g>>>> ELSE <<>>
\* S within lo..hi, with the gaps filled
RECURSIVE Filled(_, _, _, _)
Filled(S, lo, hi, g) ==
  IF S = <<>> THEN Run(lo, hi, g)
  ELSE Join(Join(Run(lo, S[1][1] - 1, g), <<S[1]>>), Filled(Tail(S), S[1][2] + 1, hi, g))

Fill(R, lo, hi, g)  == Join(Join(Before(R, lo), Filled(Clip(R, lo, hi), lo, hi, g)), After(R, hi))
Cover(R, lo, hi, g) == Join(Join(Before(R, lo), Run(lo, hi, g)), After(R, hi))
Remove(R, lo, hi)   == Join(Before(R, lo), After(R, hi))

Get(R, k) == IF \E i \in DOMAIN R : R[i][1] <= k /\ k <= R[i][2]
             THEN R[CHOOSE i \in DOMAIN R : R[i][1] <= k /\ k <= R[i][2]][3] ELSE 0
\* first key at or after k, last key before k, 0 if none
NotBefore(R, k) ==
  LET A == Clip(R, k, TOP) IN IF A = <<>> THEN 0 ELSE A[1][1]
LastBefore(R, k) ==
  LET A == Before(R, k) IN IF A = <<>> THEN 0 ELSE A[Len(A)][2]
Index(R, k) == IF k = 0 THEN Total(R) ELSE Total(Before(R, k))
\* the element with i elements before it, 0 if there is none
RECURSIVE Nth(_, _)
Nth(R, i) == IF R = <<>> \/ i < 0 THEN 0
             ELSE LET c == R[1][2] - R[1][1] + 1 IN
                  IF i < c THEN R[1][1] + i ELSE Nth(Tail(R), i - c)
\* the elements with index a..b-1, and the others
Part(R, a, b) == IF a >= b THEN <<>> ELSE Clip(R, Nth(R, a), Nth(R, b - 1))

Canonical(R) ==
  /\ \A i \in DOMAIN R : R[i][1] <= R[i][2] /\ R[i][3] > 0
  /\ \A i \in 2..Len(R) : \/ R[i-1][2] + 1 < R[i][1]
                          \/ R[i-1][2] + 1 = R[i][1] /\ R[i-1][3] # R[i][3]
=============================================================================
