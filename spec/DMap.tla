-------------------------------- MODULE DMap --------------------------------
(***************************************************************************)
(* The abstract behaviour of dense_map: the ordered map of OMap with a     *)
(* capacity per object.  An insertion that would exceed it is an error and *)
(* changes nothing; positions are random access, so each position has an   *)
(* index; elements can be split off and transferred between objects.       *)
(***************************************************************************)
EXTENDS OMap

VARIABLE cap                         \* cap[o]: capacity of object o
dmvars == <<m, n, alive, cap>>

DInit == OMInit /\ cap = [o \in Objs |-> 0]

ERR == 2                             \* result "an error was thrown"
\* index of key k (the number of elements before it); k = 0 is the end
Idx(o, k) == IF k = 0 THEN n[o]
             ELSE Cardinality({x \in 1..(k-1) : m[o][x] # 0})
\* the contents in order
Sorted(o) == SelectSeq([k \in Keys |-> k], LAMBDA k : m[o][k] # 0)
Full(o)   == n[o] >= cap[o]
Same      == UNCHANGED dmvars
Keep      == UNCHANGED cap

DNew(o, c) == New(o) /\ cap' = [cap EXCEPT ![o] = c]

\* insert (with or without a hint), try_emplace: a full map is an error,
\* even if the key is present and nothing would have been inserted
DInsert(o, k, p, out, rk, rp, ix, s) ==
    IF out = ERR
    THEN alive[o] /\ Full(o) /\ s = n[o] /\ Same
    ELSE /\ m[o][k] = 0 => ~Full(o)
         /\ Insert(o, k, p, out, rk, rp, s) /\ Keep
         /\ ix = Cardinality({x \in 1..(k-1) : m[o][x] # 0})
DTryEmplace(o, k, p, out, rk, rp, ix, s, built) ==
    /\ DInsert(o, k, p, out, rk, rp, ix, s)
    /\ built = (IF out = 1 THEN 1 ELSE 0)
DInsertHint(o, k, p, out, rk, rp, ix, s) ==
    DInsert(o, k, p, out, rk, rp, ix, s)
\* only a new key can find the map full
DInsertOrAssign(o, k, p, out, rk, rp, ix, s) ==
    IF m[o][k] = 0 /\ Full(o)
    THEN alive[o] /\ out = ERR /\ s = n[o] /\ Same
    ELSE /\ InsertOrAssign(o, k, p, out, rk, rp, s) /\ Keep
         /\ ix = Cardinality({x \in 1..(k-1) : m[o][x] # 0})
\* subscript: rp = 0 stands for the error
DSubscript(o, k, p, rp, s) ==
    IF m[o][k] = 0 /\ Full(o)
    THEN alive[o] /\ rp = 0 /\ s = n[o] /\ Same
    ELSE rp # 0 /\ Subscript(o, k, p, rp, s) /\ Keep
DWrite(o, k, p) == Write(o, k, p) /\ Keep
\* replace the key at k by k2 (a representative rep), which keeps its place
DUpdateKey(o, k, k2, rep, s) ==
    LET p == rep * REP + (m[o][k] % REP) IN
    /\ alive[o] /\ m[o][k] # 0
    /\ \A x \in Keys : m[o][x] # 0 /\ x # k => (x < k) = (x < k2) /\ x # k2
    /\ m' = [m EXCEPT ![o] = [x \in Keys |-> IF x = k2 THEN p
                                             ELSE IF x = k THEN 0 ELSE @[x]]]
    /\ s = n[o] /\ UNCHANGED <<n, alive, cap>>

DFind(o, k, rk, rp, ix) == Find(o, k, rk, rp) /\ ix = Idx(o, rk) /\ Keep
DLower(o, k, rk, rp, ix) == LowerBound(o, k, rk, rp) /\ ix = Idx(o, rk) /\ Keep
DUpper(o, k, rk, rp, ix) == UpperBound(o, k, rk, rp) /\ ix = Idx(o, rk) /\ Keep
DEraseKey(o, k, c, s) == EraseKey(o, k, c, s) /\ Keep
DErasePos(o, k, rk, rp, ix, s) ==
    /\ ErasePos(o, k, rk, rp, s) /\ Keep
    /\ ix = Cardinality({x \in 1..(k-1) : m[o][x] # 0})
DClear(o, s) == Clear(o, s) /\ Keep
DSize(o, s, e, f, c) == /\ Size(o, s, e) /\ Keep /\ c = cap[o]
                        /\ f = (IF Full(o) THEN 1 ELSE 0)

\* all lookups at once, for the keys 1..Len(lbs)
DTable(o, lbs, ubs, fnds) ==
    /\ Table(o, lbs, ubs, fnds) /\ Keep

(* Random access: position i moved by d gives position j.  Kinds: 0 mutable, *)
(* 1 constant, 2 reverse, 3 constant reverse.  r1, r2: the elements at the   *)
(* two positions; sub: the element reached by subscript d from i; diff = the *)
(* difference of the positions; cmp = <<j<i, j<=i, j>i, j>=i, j=i, j#i>>.    *)
B(x) == IF x THEN 1 ELSE 0
\* r1, r2, sub are <<key, payload>>, <<0, 0>> at the end
ElemAt(o, kind, x) ==
    LET L == Sorted(o)
        c == n[o]
        k == IF kind >= 2 THEN L[c - x] ELSE L[x + 1]
    IN IF x < 0 \/ x >= c THEN <<0, 0>> ELSE <<k, m[o][k]>>
DRandom(o, kind, i, d, r1, r2, sub, diff, cmp) ==
    LET El(x) == ElemAt(o, kind, x)
        j == i + d
    IN /\ alive[o] /\ r1 = El(i) /\ r2 = El(j) /\ sub = El(j) /\ diff = d
       /\ cmp = <<B(j < i), B(j <= i), B(j > i), B(j >= i), B(j = i), B(j # i)>>
       /\ Same
\* one step by d from position i: it returns the old position if it is a
\* postfix step, the new one otherwise, and leaves the new one
DStepIt(o, kind, i, d, post, r, w, at) ==
    /\ alive[o] /\ at = i + d /\ w = ElemAt(o, kind, i + d)
    /\ r = ElemAt(o, kind, IF post = 1 THEN i ELSE i + d)
    /\ Same

(* Moving elements between objects *)
\* the elements of src with index in lo..hi-1 move to dst
Move(src, dst, lo, hi) ==
    LET L == Sorted(src)
        G == {L[i] : i \in (lo+1)..hi}
    IN /\ m' = [m EXCEPT
            ![src] = [k \in Keys |-> IF k \in G THEN 0 ELSE @[k]],
            ![dst] = [k \in Keys |-> IF k \in G THEN m[src][k] ELSE @[k]]]
       /\ n' = [n EXCEPT ![src] = @ - (hi - lo), ![dst] = @ + (hi - lo)]
       /\ UNCHANGED <<alive, cap>>

\* split src at index ix: the elements from there on move to dst
DSplit(src, dst, ix, out, ns, nd) ==
    LET cnt == n[src] - ix IN
    /\ alive[src] /\ alive[dst]
    /\ IF n[dst] # 0 \/ cnt > cap[dst]
       THEN out = ERR /\ Same
       ELSE out = 0 /\ Move(src, dst, ix, n[src])
    /\ ns = n'[src] /\ nd = n'[dst]
DPrefix(dst, src, cnt, out, nd, ns) ==
    /\ alive[src] /\ alive[dst]
    /\ IF cnt > n[src] \/ n[dst] + cnt > cap[dst]
       THEN out = ERR /\ Same
       ELSE out = 0 /\ Move(src, dst, 0, cnt)
    /\ ns = n'[src] /\ nd = n'[dst]
DSuffix(dst, src, cnt, out, nd, ns) ==
    /\ alive[src] /\ alive[dst]
    /\ IF cnt > n[src] \/ n[dst] + cnt > cap[dst]
       THEN out = ERR /\ Same
       ELSE out = 0 /\ Move(src, dst, n[src] - cnt, n[src])
    /\ ns = n'[src] /\ nd = n'[dst]

DDelete(o) == Delete(o) /\ Keep
DCopyNew(o, src) == CopyNew(o, src) /\ cap' = [cap EXCEPT ![o] = cap[src]]
DMoveNew(o, src) == MoveNew(o, src) /\ cap' = [cap EXCEPT ![o] = cap[src]]
DCopyAssign(o, src) == CopyAssign(o, src) /\ Keep
DMoveAssign(o, src) == MoveAssign(o, src) /\ Keep

DTypeOK == TypeOK /\ \A o \in Objs : alive[o] => n[o] <= cap[o]
=============================================================================
