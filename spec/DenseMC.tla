------------------------------ MODULE DenseMC -------------------------------
EXTENDS DenseImpl
C4 == <<4>>
C34 == <<3, 4>>
C43 == <<4, 3>>
C22 == <<2, 2>>

(* Mistakes, put in place of the definitions they are named after: TLC must  *)
(* refute them, which shows that the invariants constrain these steps.      *)
BadInsArr(f, c, i, x) == [j \in 1..c |-> IF j <= i THEN f[j]
                                         ELSE IF j = i+1 THEN x ELSE IF j = c THEN f[j] ELSE f[j-1]]
BadDelArr(f, c, i, s) == [j \in 1..c |-> IF j <= i THEN f[j]
                                         ELSE IF j < s THEN f[j+1] ELSE f[j]]
BadUbIdx(o, k) == LbIdx(o, k)
BadHas(o, i, k) == i < sz[o] /\ ks[o][i+1] >= k
BadSetVal(o, i, v) == Cur
BadLbIdx(o, k) == Cardinality({i \in 1..(sz[o] - 1) : ks[o][i] < k})   \* the last key is not compared
BadSplit2(src, dst, ix) ==                       \* accepts a destination that is not empty
    LET cnt == sz[src] - ix
        refused == cnt > Cap(dst)
        Mv(f) == [f EXCEPT
            ![dst] = [j \in Slots(dst) |-> IF j <= cnt THEN f[src][ix+j] ELSE 0],
            ![src] = [j \in Slots(src) |-> IF j <= ix THEN @[j] ELSE 0]]
        N == IF refused THEN Cur
             ELSE [k |-> Mv(ks), v |-> Mv(vs), s |-> [sz EXCEPT ![dst] = cnt, ![src] = ix]]
    IN /\ src # dst /\ ix <= sz[src] /\ lab' = <<"spl", src, dst, ix>>
       /\ Become(N)
       /\ Step2(DSplit(src, dst, ix, IF refused THEN ERR ELSE 0, N.s[src], N.s[dst]))
BadPrefix2(dst, src, cnt) ==                     \* leaves the rest of the source where it was
    LET refused == cnt > sz[src] \/ sz[dst] + cnt > Cap(dst)
        Mv(f) == [f EXCEPT
             ![dst] = [j \in Slots(dst) |->
                         IF j > sz[dst] /\ j <= sz[dst] + cnt THEN f[src][j - sz[dst]] ELSE @[j]],
             ![src] = [j \in Slots(src) |-> IF j + cnt <= sz[src] THEN @[j] ELSE 0]]
        N == IF refused THEN Cur
             ELSE [k |-> Mv(ks), v |-> Mv(vs), s |-> [sz EXCEPT ![dst] = @ + cnt, ![src] = @ - cnt]]
    IN /\ src # dst /\ lab' = <<"pre", dst, src, cnt>>
       /\ (cnt > 0 /\ sz[src] > 0 /\ sz[dst] > 0) => ks[dst][sz[dst]] < ks[src][1]
       /\ Become(N)
       /\ Step2(DPrefix(dst, src, cnt, IF refused THEN ERR ELSE 0, N.s[dst], N.s[src]))
BadSuffix2(dst, src, cnt) ==                     \* does not make room: overwrites the destination's first
    LET refused == cnt > sz[src] \/ sz[dst] + cnt > Cap(dst)
        Mv(f) == [f EXCEPT
             ![dst] = [j \in Slots(dst) |-> IF j <= cnt THEN f[src][sz[src] - cnt + j] ELSE @[j]],
             ![src] = [j \in Slots(src) |-> IF j + cnt <= sz[src] THEN @[j] ELSE 0]]
        N == IF refused THEN Cur
             ELSE [k |-> Mv(ks), v |-> Mv(vs), s |-> [sz EXCEPT ![dst] = @ + cnt, ![src] = @ - cnt]]
    IN /\ src # dst /\ lab' = <<"suf", dst, src, cnt>>
       /\ (cnt > 0 /\ sz[src] > 0 /\ sz[dst] > 0) => ks[src][sz[src]] < ks[dst][1]
       /\ Become(N)
       /\ Step2(DSuffix(dst, src, cnt, IF refused THEN ERR ELSE 0, N.s[dst], N.s[src]))
=============================================================================
