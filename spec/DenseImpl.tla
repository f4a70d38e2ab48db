----------------------------- MODULE DenseImpl ------------------------------
(***************************************************************************)
(* dense_map as it is implemented: a key array, a value array and a size,  *)
(* changed by shifting.  Every action runs the implementation's algorithm  *)
(* and, in step with it, the abstract action of DMap with the results the  *)
(* algorithm computed; err records that DMap does not allow them.          *)
(* Exhaustive over all contents of small maps; every transition is also    *)
(* printed (Emit) and replayed on the real code.                           *)
(***************************************************************************)
EXTENDS DMap, TLC

CONSTANTS CAPS,      \* capacities, one per object
          VALS       \* values to store (> 1)

VARIABLES ks, vs, sz, \* the arrays and the size of each object
          err, lab
impl == <<ks, vs, sz>>
all == <<dmvars, ks, vs, sz, err, lab>>

Cap(o) == CAPS[o]
Slots(o) == 1..Cap(o)
At0(f, i) == IF i \in DOMAIN f THEN f[i] ELSE 0

Init == /\ m = [o \in Objs |-> Empty] /\ n = [o \in Objs |-> 0]
        /\ alive = [o \in Objs |-> TRUE] /\ cap = CAPS
        /\ ks = [o \in Objs |-> [i \in Slots(o) |-> 0]]
        /\ vs = [o \in Objs |-> [i \in Slots(o) |-> 0]]
        /\ sz = [o \in Objs |-> 0]
        /\ err = FALSE /\ lab = <<>>

\* the abstract step A happens, or it is impossible and err is raised
Step2(A) == \/ A /\ err' = FALSE
            \/ ~ENABLED A /\ err' = TRUE /\ UNCHANGED dmvars

-----------------------------------------------------------------------------
(* searching: number of keys before k = zero-based index of the lower bound *)
LbIdx(o, k) == LET RECURSIVE F(_)
                   F(i) == IF i < sz[o] /\ ks[o][i+1] < k THEN F(i+1) ELSE i
               IN F(0)
UbIdx(o, k) == LET i == LbIdx(o, k)
               IN IF i < sz[o] /\ ks[o][i+1] = k THEN i + 1 ELSE i
Has(o, i, k) == i < sz[o] /\ ks[o][i+1] = k
KeyAt(o, i) == IF i < sz[o] THEN ks[o][i+1] ELSE 0
ValAt(o, i) == IF i < sz[o] THEN vs[o][i+1] ELSE 0

(* shifting *)
InsArr(f, c, i, x) == [j \in 1..c |-> IF j <= i THEN f[j]
                                      ELSE IF j = i+1 THEN x ELSE f[j-1]]
DelArr(f, c, i, s) == [j \in 1..c |-> IF j <= i THEN f[j]
                                      ELSE IF j < s THEN f[j+1] ELSE 0]
\* new arrays and size as one record; Same0 = the present ones
Cur == [k |-> ks, v |-> vs, s |-> sz]
InsertAt(o, i, k, v) ==
    [k |-> [ks EXCEPT ![o] = InsArr(@, Cap(o), i, k)],
     v |-> [vs EXCEPT ![o] = InsArr(@, Cap(o), i, v)],
     s |-> [sz EXCEPT ![o] = @ + 1]]
EraseAt(o, i) ==
    [k |-> [ks EXCEPT ![o] = DelArr(@, Cap(o), i, sz[o])],
     v |-> [vs EXCEPT ![o] = DelArr(@, Cap(o), i, sz[o])],
     s |-> [sz EXCEPT ![o] = @ - 1]]
SetVal(o, i, v) == [Cur EXCEPT !.v = [vs EXCEPT ![o][i+1] = v]]
Become(N) == ks' = N.k /\ vs' = N.v /\ sz' = N.s

-----------------------------------------------------------------------------
(* insert family; how = "ins", "inh", "te" keep an existing value, "ioa" sets *)
Put2(o, k, v, how) ==
    LET i == LbIdx(o, k)
        has == Has(o, i, k)
        full == sz[o] >= Cap(o)
        refused == full /\ (how # "ioa" \/ ~has)   \* mostly before looking
        N == IF refused THEN Cur
             ELSE IF ~has THEN InsertAt(o, i, k, v)
             ELSE IF how = "ioa" THEN SetVal(o, i, v) ELSE Cur
        out == IF refused THEN ERR ELSE IF has THEN 0 ELSE 1
        rk == IF refused THEN 0 ELSE N.k[o][i+1]
        rp == IF refused THEN 0 ELSE N.v[o][i+1]
        s == N.s[o]
    IN /\ lab' = <<how, o, k, v>>
       /\ Become(N)
       /\ CASE how = "ins" -> Step2(DInsert(o, k, v, out, rk, rp, i, s))
            [] how = "inh" -> Step2(DInsertHint(o, k, v, out, rk, rp, i, s))
            [] how = "te"  -> Step2(DTryEmplace(o, k, v, out, rk, rp, i, s, out % ERR))
            [] OTHER -> Step2(DInsertOrAssign(o, k, v, out, rk, rp, i, s))
Sub2(o, k) ==
    LET i == LbIdx(o, k)
        has == Has(o, i, k)
        refused == ~has /\ sz[o] >= Cap(o)
        N == IF has \/ refused THEN Cur ELSE InsertAt(o, i, k, 1)
    IN /\ lab' = <<"sub", o, k>>
       /\ Become(N)
       /\ Step2(DSubscript(o, k, 1, IF refused THEN 0 ELSE N.v[o][i+1], N.s[o]))
Find2(o, k) ==
    LET i == LbIdx(o, k)
        j == IF Has(o, i, k) THEN i ELSE sz[o]
    IN /\ lab' = <<"fnd", o, k>> /\ UNCHANGED impl
       /\ Step2(DFind(o, k, KeyAt(o, j), ValAt(o, j), j))
Lower2(o, k) == LET i == LbIdx(o, k) IN
    /\ lab' = <<"lb", o, k>> /\ UNCHANGED impl
    /\ Step2(DLower(o, k, KeyAt(o, i), ValAt(o, i), i))
Upper2(o, k) == LET i == UbIdx(o, k) IN
    /\ lab' = <<"ub", o, k>> /\ UNCHANGED impl
    /\ Step2(DUpper(o, k, KeyAt(o, i), ValAt(o, i), i))
EraseKey2(o, k) ==
    LET i == LbIdx(o, k)
        has == Has(o, i, k)
        N == IF has THEN EraseAt(o, i) ELSE Cur
    IN /\ lab' = <<"ek", o, k>>
       /\ Become(N)
       /\ Step2(DEraseKey(o, k, IF has THEN 1 ELSE 0, N.s[o]))
ErasePos2(o, i) ==
    LET N == EraseAt(o, i)
        rk == IF i < N.s[o] THEN N.k[o][i+1] ELSE 0
        rp == IF i < N.s[o] THEN N.v[o][i+1] ELSE 0
    IN /\ i < sz[o] /\ lab' = <<"ep", o, ks[o][i+1]>>
       /\ Become(N)
       /\ Step2(DErasePos(o, ks[o][i+1], rk, rp, i, N.s[o]))
UpdKey2(o, i, k) ==
    /\ i < sz[o]
    /\ i > 0 => ks[o][i] < k
    /\ i + 1 < sz[o] => k < ks[o][i+2]
    /\ lab' = <<"upk", o, ks[o][i+1], k>>
    /\ ks' = [ks EXCEPT ![o][i+1] = k] /\ UNCHANGED <<vs, sz>>
    /\ Step2(DUpdateKey(o, ks[o][i+1], k, 0, sz[o]))
Clear2(o) ==
    /\ lab' = <<"clr", o>>
    /\ ks' = [ks EXCEPT ![o] = [j \in Slots(o) |-> 0]]
    /\ vs' = [vs EXCEPT ![o] = [j \in Slots(o) |-> 0]]
    /\ sz' = [sz EXCEPT ![o] = 0]
    /\ Step2(DClear(o, 0))
Split2(src, dst, ix) ==
    LET cnt == sz[src] - ix
        refused == sz[dst] # 0 \/ cnt > Cap(dst)
        Mv(f) == [f EXCEPT
            ![dst] = [j \in Slots(dst) |-> IF j <= cnt THEN f[src][ix+j] ELSE 0],
            ![src] = [j \in Slots(src) |-> IF j <= ix THEN @[j] ELSE 0]]
        N == IF refused THEN Cur
             ELSE [k |-> Mv(ks), v |-> Mv(vs),
                   s |-> [sz EXCEPT ![dst] = cnt, ![src] = ix]]
    IN /\ src # dst /\ ix <= sz[src] /\ lab' = <<"spl", src, dst, ix>>
       /\ Become(N)
       /\ Step2(DSplit(src, dst, ix, IF refused THEN ERR ELSE 0, N.s[src], N.s[dst]))
\* append the first cnt elements of src to dst
Prefix2(dst, src, cnt) ==
    LET refused == cnt > sz[src] \/ sz[dst] + cnt > Cap(dst)
        Mv(f) == [f EXCEPT
             ![dst] = [j \in Slots(dst) |->
                         IF j > sz[dst] /\ j <= sz[dst] + cnt THEN f[src][j - sz[dst]] ELSE @[j]],
             ![src] = [j \in Slots(src) |-> IF j + cnt <= sz[src] THEN @[j + cnt] ELSE 0]]
        N == IF refused THEN Cur
             ELSE [k |-> Mv(ks), v |-> Mv(vs),
                   s |-> [sz EXCEPT ![dst] = @ + cnt, ![src] = @ - cnt]]
    IN /\ src # dst /\ lab' = <<"pre", dst, src, cnt>>
       /\ (cnt > 0 /\ sz[src] > 0 /\ sz[dst] > 0) => ks[dst][sz[dst]] < ks[src][1]
       /\ Become(N)
       /\ Step2(DPrefix(dst, src, cnt, IF refused THEN ERR ELSE 0, N.s[dst], N.s[src]))
\* prepend the last cnt elements of src to dst
Suffix2(dst, src, cnt) ==
    LET refused == cnt > sz[src] \/ sz[dst] + cnt > Cap(dst)
        Mv(f) == [f EXCEPT
             ![dst] = [j \in Slots(dst) |->
                         IF j <= cnt THEN f[src][sz[src] - cnt + j]
                         ELSE IF j <= sz[dst] + cnt THEN @[j - cnt] ELSE 0],
             ![src] = [j \in Slots(src) |-> IF j + cnt <= sz[src] THEN @[j] ELSE 0]]
        N == IF refused THEN Cur
             ELSE [k |-> Mv(ks), v |-> Mv(vs),
                   s |-> [sz EXCEPT ![dst] = @ + cnt, ![src] = @ - cnt]]
    IN /\ src # dst /\ lab' = <<"suf", dst, src, cnt>>
       /\ (cnt > 0 /\ sz[src] > 0 /\ sz[dst] > 0) => ks[src][sz[src]] < ks[dst][1]
       /\ Become(N)
       /\ Step2(DSuffix(dst, src, cnt, IF refused THEN ERR ELSE 0, N.s[dst], N.s[src]))

Single(o) == \/ \E k \in Keys :
                  \/ \E v \in VALS, how \in {"ins", "inh", "te", "ioa"} : Put2(o, k, v, how)
                  \/ Sub2(o, k) \/ Find2(o, k) \/ Lower2(o, k) \/ Upper2(o, k)
                  \/ EraseKey2(o, k)
                  \/ \E i \in 0..(Cap(o)-1) : UpdKey2(o, i, k)
             \/ \E i \in 0..(Cap(o)-1) : ErasePos2(o, i)
             \/ Clear2(o)
Double == \E a, b \in Objs :
             \/ \E c \in 0..(Cap(a)+1) : Split2(a, b, c)
             \/ \E c \in 0..(Cap(b)+1) : Prefix2(a, b, c) \/ Suffix2(a, b, c)
Grow(o) == \E k \in Keys, v \in VALS : Put2(o, k, v, "ins")

SpecSingle == Init /\ [][\E o \in Objs : Single(o)]_all
SpecDouble == Init /\ [][Double \/ \E o \in Objs : Grow(o)]_all

-----------------------------------------------------------------------------
View == <<m, n, ks, vs, sz, err>>   \* both sides: a step that uncouples them is a new state
NoErr == ~err
\* the arrays hold exactly the abstract contents, in strictly ascending order
Coupled == \A o \in Objs :
    /\ sz[o] = n[o]
    /\ \A i \in 1..sz[o] : /\ i > 1 => ks[o][i-1] < ks[o][i]
                           /\ m[o][ks[o][i]] = vs[o][i]
    /\ \A i \in (sz[o]+1)..Cap(o) : ks[o][i] = 0 /\ vs[o][i] = 0
Contents(o) == SubSeq(ks[o], 1, sz[o])
Emit == PrintT(<<"X", [o \in Objs |-> Contents(o)], lab'>>)
EmitDouble == lab'[1] \in {"spl", "pre", "suf"} => PrintT(<<"X", [o \in Objs |-> Contents(o)], lab'>>)
=============================================================================
