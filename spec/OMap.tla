-------------------------------- MODULE OMap --------------------------------
(***************************************************************************)
(* The abstract behaviour of the ordered containers of fast-containers:    *)
(* up to NO container objects, each a finite map from the abstract keys    *)
(* 1..U (ranked by the comparator, equivalent keys have the same rank) to  *)
(* payloads.  A payload is an integer > 0; it combines the representative  *)
(* of the key (which of several equivalent keys is stored) and the value:  *)
(* payload = rep * REP + value.  0 means "no element"; position 0 is the   *)
(* end position.                                                           *)
(*                                                                         *)
(* Every public operation is one action; its parameters are the arguments  *)
(* and the observable results, and the action is enabled exactly when the  *)
(* results are right.  OMapTrace replays recorded executions against it,   *)
(* BTree.tla (the implementation-shaped model) refines it.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS U,      \* number of abstract keys
          NO      \* number of container objects

VARIABLES m,      \* m[o][k]: payload stored under k in object o, 0 if none
          n,      \* n[o]: number of elements
          alive   \* alive[o]: the object exists

omvars == <<m, n, alive>>

REP == 65536
DEFAULT == 1                       \* payload of a default value
Keys == 1..U
Objs == 1..NO
Empty == [k \in Keys |-> 0]

\* The payload that results from assigning payload p to an element that has
\* payload old: the stored key stays, the value is replaced.
Overwrite(old, p) == (old \div REP) * REP + (p % REP)

-----------------------------------------------------------------------------
(* Order queries on a map f *)

\* smallest present key in lo..hi, 0 if none
First(f, lo, hi) ==
    IF \E x \in lo..hi : f[x] # 0
    THEN CHOOSE x \in lo..hi : f[x] # 0 /\ \A y \in lo..(x-1) : f[y] = 0
    ELSE 0
\* largest present key in lo..hi, 0 if none
Last(f, lo, hi) ==
    IF \E d \in 0..(hi-lo) : f[hi-d] # 0
    THEN hi - (CHOOSE d \in 0..(hi-lo) :
                 f[hi-d] # 0 /\ \A e \in 0..(d-1) : f[hi-e] = 0)
    ELSE 0

At(f, k)    == IF k = 0 THEN 0 ELSE f[k]
LB(f, k)    == First(f, k, U)                  \* first element not before k
UB(f, k)    == First(f, k+1, U)                \* first element after k
Succ(f, k)  == IF k = 0 THEN 0 ELSE First(f, (IF k < 0 THEN 0 ELSE k) + 1, U)
Pred(f, k)  == IF k = 0 THEN Last(f, 1, U) ELSE Last(f, 1, k-1)
\* One step (d = 1 forward, -1 backward, 0 none) of a forward iterator (0 = end,
\* -1 = before the beginning) or of a reverse iterator (0 = rend, U+1 = before
\* the reverse beginning)
Step(f, k, d)  == IF d = 0 THEN k ELSE IF d = 1 THEN Succ(f, k) ELSE Pred(f, k)
RStep(f, k, d) == IF d = 0 THEN k ELSE IF d = 1 THEN Last(f, 1, k-1)
                  ELSE IF k = 0 THEN First(f, 1, U) ELSE First(f, k+1, U)

Count(f) == Cardinality({k \in Keys : f[k] # 0})

\* list = <<k1, p1, k2, p2, ...>> is exactly the contents of f (with c
\* elements) in ascending order
IsScan(f, c, list) ==
    /\ Len(list) = 2 * c
    /\ \A i \in 1..c : /\ list[2*i-1] \in Keys
                       /\ f[list[2*i-1]] = list[2*i]
                       /\ list[2*i] # 0
                       /\ i > 1 => list[2*i-3] < list[2*i-1]
\* ... in descending order
IsRScan(f, c, list) ==
    /\ Len(list) = 2 * c
    /\ \A i \in 1..c : /\ list[2*i-1] \in Keys
                       /\ f[list[2*i-1]] = list[2*i]
                       /\ list[2*i] # 0
                       /\ i > 1 => list[2*i-3] > list[2*i-1]

-----------------------------------------------------------------------------
(* Actions *)

OMInit == /\ m = [o \in Objs |-> Empty]
          /\ n = [o \in Objs |-> 0]
          /\ alive = [o \in Objs |-> FALSE]

Put(o, k, p) == /\ m' = [m EXCEPT ![o][k] = p]
                /\ n' = [n EXCEPT ![o] = IF m[o][k] = 0 THEN @ + 1 ELSE @]
                /\ UNCHANGED alive
Drop(o, k) == /\ m' = [m EXCEPT ![o][k] = 0]
              /\ n' = [n EXCEPT ![o] = IF m[o][k] = 0 THEN @ ELSE @ - 1]
              /\ UNCHANGED alive

\* insert, emplace, emplace_hint, try_emplace: never overwrite
Insert(o, k, p, ins, rk, rp, s) ==
    /\ alive[o] /\ k \in Keys
    /\ IF m[o][k] = 0 THEN ins = 1 /\ Put(o, k, p)
                      ELSE ins = 0 /\ UNCHANGED omvars
    /\ rk = k /\ rp = m'[o][k] /\ s = n'[o]

InsertOrAssign(o, k, p, ins, rk, rp, s) ==
    /\ alive[o] /\ k \in Keys
    /\ IF m[o][k] = 0 THEN ins = 1 /\ Put(o, k, p)
                      ELSE ins = 0 /\ Put(o, k, Overwrite(m[o][k], p))
    /\ rk = k /\ rp = m'[o][k] /\ s = n'[o]

\* try_emplace: built = 1 if the value was built from (or the argument consumed
\* by) the call, which happens exactly when the element is inserted
TryEmplace(o, k, p, ins, rk, rp, s, built) ==
    Insert(o, k, p, ins, rk, rp, s) /\ built = ins

\* subscript: rp is the payload read through the returned reference, p the
\* payload a default value would have under this key
Subscript(o, k, p, rp, s) ==
    /\ alive[o] /\ k \in Keys
    /\ IF m[o][k] = 0 THEN Put(o, k, p) ELSE UNCHANGED omvars
    /\ rp % REP = m'[o][k] % REP /\ s = n'[o]

\* assignment through a position or reference to an existing element
Write(o, k, p) ==
    /\ alive[o] /\ k \in Keys /\ m[o][k] # 0
    /\ Put(o, k, Overwrite(m[o][k], p))

Find(o, k, rk, rp) ==
    /\ alive[o] /\ k \in Keys
    /\ rk = IF m[o][k] = 0 THEN 0 ELSE k
    /\ rp = At(m[o], rk)
    /\ UNCHANGED omvars
CountKey(o, k, c) == /\ alive[o] /\ c = (IF m[o][k] = 0 THEN 0 ELSE 1)
                     /\ UNCHANGED omvars
\* checked access: rp = 0 stands for the out_of_range error
AtKey(o, k, rp) == /\ alive[o] /\ rp % REP = m[o][k] % REP
                   /\ (rp = 0) = (m[o][k] = 0)
                   /\ UNCHANGED omvars
LowerBound(o, k, rk, rp) == /\ alive[o] /\ rk = LB(m[o], k)
                            /\ rp = At(m[o], rk) /\ UNCHANGED omvars
UpperBound(o, k, rk, rp) == /\ alive[o] /\ rk = UB(m[o], k)
                            /\ rp = At(m[o], rk) /\ UNCHANGED omvars
EqualRange(o, k, lk, uk) == /\ alive[o] /\ lk = LB(m[o], k)
                            /\ uk = UB(m[o], k) /\ UNCHANGED omvars

EraseKey(o, k, c, s) ==
    /\ alive[o] /\ k \in Keys
    /\ c = (IF m[o][k] = 0 THEN 0 ELSE 1)
    /\ IF m[o][k] = 0 THEN UNCHANGED omvars ELSE Drop(o, k)
    /\ s = n'[o]
\* erase the element at position k; rk is the returned position
ErasePos(o, k, rk, rp, s) ==
    /\ alive[o] /\ k \in Keys /\ m[o][k] # 0
    /\ rk = Succ(m[o], k) /\ rp = At(m[o], rk)
    /\ Drop(o, k) /\ s = n'[o]
\* erase positions [k1, k2); 0 is the end position
EraseRange(o, k1, k2, rk, rp, s) ==
    LET Gone == IF k1 = 0 THEN {}
                ELSE {k \in k1..(IF k2 = 0 THEN U ELSE k2-1) : m[o][k] # 0}
    IN /\ alive[o]
       /\ k1 # 0 => m[o][k1] # 0
       /\ k2 # 0 => m[o][k2] # 0
       /\ rk = k2 /\ rp = At(m[o], rk)
       /\ m' = [m EXCEPT ![o] = [k \in Keys |-> IF k \in Gone THEN 0 ELSE @[k]]]
       /\ n' = [n EXCEPT ![o] = @ - Cardinality(Gone)]
       /\ UNCHANGED alive
       /\ s = n'[o]
Clear(o, s) == /\ alive[o] /\ m' = [m EXCEPT ![o] = Empty]
               /\ n' = [n EXCEPT ![o] = 0] /\ UNCHANGED alive /\ s = 0

Size(o, s, e) == /\ alive[o] /\ s = n[o] /\ e = (IF n[o] = 0 THEN 1 ELSE 0)
                 /\ UNCHANGED omvars
Scan(o, list) == alive[o] /\ IsScan(m[o], n[o], list) /\ UNCHANGED omvars
RScan(o, list) == alive[o] /\ IsRScan(m[o], n[o], list) /\ UNCHANGED omvars
\* the comparison objects order keys (and elements) as the container does
Compare(k1, k2, kres, vres) == /\ kres = (IF k1 < k2 THEN 1 ELSE 0)
                               /\ vres = kres /\ UNCHANGED omvars
\* a position stepped along ds (1 forward, -1 backward) visits ks
Walk(o, start, ds, ks) ==
    /\ alive[o] /\ Len(ds) = Len(ks)
    /\ \A i \in DOMAIN ds :
         ks[i] = Step(m[o], IF i = 1 THEN start ELSE ks[i-1], ds[i])
    /\ UNCHANGED omvars
RWalk(o, start, ds, ks) ==
    /\ alive[o] /\ Len(ds) = Len(ks)
    /\ \A i \in DOMAIN ds :
         ks[i] = RStep(m[o], IF i = 1 THEN start ELSE ks[i-1], ds[i])
    /\ UNCHANGED omvars

\* lookups of all keys 1..Len(lbs) at once: lower bounds, upper bounds, found
Table(o, lbs, ubs, fnds) ==
    /\ alive[o] /\ Len(lbs) = Len(ubs) /\ Len(fnds) = Len(lbs)
    /\ \A k \in 1..Len(lbs) :
         LET next == IF k = Len(lbs) THEN First(m[o], k+1, U) ELSE lbs[k+1]
         IN /\ lbs[k] = IF m[o][k] # 0 THEN k ELSE next
            /\ ubs[k] = next
            /\ fnds[k] = m[o][k]
    /\ UNCHANGED omvars

(* object lifetime *)
New(o) == /\ ~alive[o] /\ alive' = [alive EXCEPT ![o] = TRUE]
          /\ m' = [m EXCEPT ![o] = Empty] /\ n' = [n EXCEPT ![o] = 0]
\* construct from a list <<k1, p1, k2, p2, ...>>: the first of equal keys wins
FromList(list) ==
    [k \in Keys |->
       LET I == {i \in 1..(Len(list) \div 2) : list[2*i-1] = k}
       IN IF I = {} THEN 0
          ELSE list[2 * (CHOOSE i \in I : \A j \in I : i <= j)]]
NewFrom(o, list) ==
    /\ ~alive[o] /\ alive' = [alive EXCEPT ![o] = TRUE]
    /\ m' = [m EXCEPT ![o] = FromList(list)]
    /\ n' = [n EXCEPT ![o] = Count(m'[o])]
Delete(o) == /\ alive[o] /\ alive' = [alive EXCEPT ![o] = FALSE]
             /\ m' = [m EXCEPT ![o] = Empty] /\ n' = [n EXCEPT ![o] = 0]
CopyNew(o, src) == /\ ~alive[o] /\ alive[src]
                   /\ alive' = [alive EXCEPT ![o] = TRUE]
                   /\ m' = [m EXCEPT ![o] = m[src]]
                   /\ n' = [n EXCEPT ![o] = n[src]]
MoveNew(o, src) == /\ ~alive[o] /\ alive[src]
                   /\ alive' = [alive EXCEPT ![o] = TRUE]
                   /\ m' = [m EXCEPT ![o] = m[src], ![src] = Empty]
                   /\ n' = [n EXCEPT ![o] = n[src], ![src] = 0]
CopyAssign(o, src) == /\ alive[o] /\ alive[src]
                      /\ m' = [m EXCEPT ![o] = m[src]]
                      /\ n' = [n EXCEPT ![o] = n[src]]
                      /\ UNCHANGED alive
MoveAssign(o, src) ==
    /\ alive[o] /\ alive[src] /\ UNCHANGED alive
    /\ IF o = src THEN UNCHANGED <<m, n>>
       ELSE /\ m' = [m EXCEPT ![o] = m[src], ![src] = Empty]
            /\ n' = [n EXCEPT ![o] = n[src], ![src] = 0]
Swap(o, p) == /\ alive[o] /\ alive[p] /\ UNCHANGED alive
              /\ m' = [m EXCEPT ![o] = m[p], ![p] = m[o]]
              /\ n' = [n EXCEPT ![o] = n[p], ![p] = n[o]]
\* an operation that reported an error (or was refused) changed nothing
Failed(o) == alive[o] /\ UNCHANGED omvars
\* an interrupted assignment leaves some valid contents
AssignFailed(o, list) ==
    /\ alive[o] /\ UNCHANGED alive
    /\ Len(list) % 2 = 0
    /\ \A i \in DOMAIN list :
         IF i % 2 = 1 THEN list[i] \in Keys /\ (i > 1 => list[i-2] < list[i])
         ELSE list[i] > 0 /\ list[i] % REP # REP - 1
    /\ m' = [m EXCEPT ![o] = FromList(list)]
    /\ n' = [n EXCEPT ![o] = Len(list) \div 2]

Total(f) == LET RECURSIVE S(_)
                S(i) == IF i = 0 THEN 0 ELSE f[i] + S(i-1)
            IN S(NO)
\* number of live values owned by all containers together
Live(c) == c = Total(n) /\ UNCHANGED omvars

-----------------------------------------------------------------------------
TypeOK == /\ \A o \in Objs : Len(m[o]) = U /\ \A k \in Keys : m[o][k] >= 0
          /\ \A o \in Objs : n[o] = Count(m[o])
          /\ \A o \in Objs : ~alive[o] => n[o] = 0
=============================================================================
