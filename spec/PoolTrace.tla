----------------------------- MODULE PoolTrace ------------------------------
(* Validates executions of the memory pools and allocator handles.          *)
(*   reg    regions the system granted; mapped those not yet unmapped        *)
(*   pool   pools; multi the multi-size pools with their pool per class      *)
(*   ref    handles: kind "P" a pool, "M" a multi-size pool, and allocators  *)
(*          "H" one pool, "S" multi-size, "T" two pools; type, pool(s)       *)
EXTENDS Pool, TLC, Json, IOUtils

VARIABLES l, reg, mapped, pool, multi, ref, types, np
vars == <<l, reg, mapped, pool, multi, ref, types, np>>
state == <<reg, mapped, pool, multi, ref>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Empty == [x \in {} |-> 0]

Init == /\ l = 1 /\ reg = Empty /\ mapped = {} /\ pool = Empty /\ multi = Empty
        /\ ref = Empty /\ types = <<>> /\ np = 1

Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, S) == [y \in DOMAIN f \ S |-> f[y]]

\* a condition, not an action: TLC must not branch on its disjunctions
Holds(c) == IF c THEN TRUE ELSE FALSE

Grants(ms) == {i \in DOMAIN ms : ms[i][3] = 1}
NewRegs(ms) == [r \in DOMAIN reg \cup {ms[i][4] : i \in Grants(ms)} |->
                 IF r \in DOMAIN reg THEN reg[r]
                 ELSE LET i == CHOOSE i \in Grants(ms) : ms[i][4] = r
                      IN [size |-> ms[i][2], mod |-> ms[i][5]]]

\* pools some handle still reaches
Reached(rf, mu) ==
  UNION {IF rf[h].k \in {"M", "S"} THEN PRange(mu[rf[h].a].ch) ELSE {rf[h].a, rf[h].b} : h \in DOMAIN rf}
ReachedMulti(rf) == {rf[h].a : h \in {g \in DOMAIN rf : rf[g].k \in {"M", "S"}}}

\* Every step: the mappings ms granted, exactly the regions of the pools that
\* nobody reaches any more (and those in extra) unmapped, with their true size.
Commit(ms, un, pl, mu, rf, extra) ==
  \E R \in {NewRegs(ms)}, keep \in {Reached(rf, mu)} :
    /\ \A i \in Grants(ms) : ms[i][4] \notin DOMAIN reg
    /\ \E gone \in {extra \cup UNION {pl[p].regs : p \in DOMAIN pl \ keep}} :
         /\ Len(un) = Cardinality(gone)
         /\ {un[i] : i \in DOMAIN un} = {<<r, R[r].size>> : r \in gone}
         /\ gone \subseteq mapped \cup {ms[i][4] : i \in Grants(ms)}
         /\ mapped' = (mapped \cup {ms[i][4] : i \in Grants(ms)}) \ gone
    /\ reg' = R
    /\ pool' = Without(pl, DOMAIN pl \ keep)
    /\ multi' = Without(mu, DOMAIN mu \ ReachedMulti(rf))
    /\ ref' = rf
    /\ UNCHANGED types

H(k, t, a, b) == [k |-> k, t |-> t, a |-> a, b |-> b]
Nothing(un) == Commit(<<>>, un, pool, multi, ref, {}) /\ UNCHANGED np

\* a failed call leaves nothing of what it mapped
Failed(ms, un) == Commit(ms, un, pool, multi, ref, {ms[i][4] : i \in Grants(ms)}) /\ UNCHANGED np

-----------------------------------------------------------------------------
(* New handles                                                              *)
NewOne(k, h, t, init, req, grow, res, ms, un, nf) ==
  /\ h \notin DOMAIN ref
  /\ \/ /\ res = "ok"
        /\ \E P \in Created(init, grow, req, ms) :
             /\ Commit(ms, un, Ext(pool, np, P), multi, Ext(ref, h, H(k, t, np, np)), {})
             /\ np' = np + 1
     \/ /\ res = "oom"
        /\ Holds(nf = 1 \/ CreationRefused(init, req, ms))
        /\ Failed(ms, un)

NewTwo(h, t, li, ii, req, lg, ig, res, ms, un, nf) ==
  /\ h \notin DOMAIN ref
  /\ \/ /\ res = "ok"
        /\ \E k \in 1..Len(ms) : \E swap \in BOOLEAN :
             LET a == SubSeq(ms, 1, k) b == SubSeq(ms, k + 1, Len(ms))
             IN \E L \in Created(li, lg, req, IF swap THEN b ELSE a), I \in Created(ii, ig, req, IF swap THEN a ELSE b) :
                  Commit(ms, un, Ext(Ext(pool, np, L), np + 1, I), multi, Ext(ref, h, H("T", t, np, np + 1)), {})
        /\ np' = np + 2
     \/ /\ res = "oom"
        /\ \/ nf = 1
           \/ CreationRefused(li, req, ms) \/ CreationRefused(ii, req, ms)
           \/ \E k \in 1..Len(ms) :
                LET a == SubSeq(ms, 1, k) b == SubSeq(ms, k + 1, Len(ms))
                IN \/ Created(li, lg, req, a) /= {} /\ CreationRefused(ii, req, b)
                   \/ Created(ii, ig, req, a) /= {} /\ CreationRefused(li, req, b)
        /\ Failed(ms, un)

NewMulti(h, init, req, grow, un) ==
  /\ h \notin DOMAIN ref
  /\ Commit(<<>>, un, pool, Ext(multi, np, [init |-> init, grow |-> grow, req |-> req, ch |-> Empty]),
            Ext(ref, h, H("M", 0, np, 0)), {})
  /\ np' = np + 1

\* a handle made from another one without a new pool
Derive(h, r, un) == Commit(<<>>, un, pool, multi, Ext(ref, h, r), {}) /\ UNCHANGED np

Rebind(h, t, g, res, ms, un, nf) ==
  /\ h \notin DOMAIN ref
  /\ IF ref[g].k = "H" /\ ref[g].t /= t      \* (the same type: a copy)
     THEN \E P \in {pool[ref[g].a]} : \E req \in {P.huge, P.req} :
            NewOne("H", h, t, P.init, req, P.grow, res, ms, un, nf)
     ELSE res = "ok" /\ ms = <<>> /\ Derive(h, [ref[g] EXCEPT !.t = t], un)

-----------------------------------------------------------------------------
(* Requests                                                                 *)
ForType(r) == IF r.k = "T" /\ types[r.t][3] = 2 THEN r.b ELSE r.a
BytesOf(r, n, bytes) == IF r.k \in {"P", "M"} THEN bytes
                        ELSE IF r.k = "S" /\ n >= LIMIT \div types[r.t][1] THEN Max2(bytes, LIMIT)
                        ELSE IF r.k = "S" THEN n * types[r.t][1]
                        ELSE types[r.t][1]
AlignOf(r, align) == IF r.k \in {"P", "M"} THEN align
                     ELSE IF r.k = "S" THEN types[r.t][2] ELSE Max2(IF UNIT > 1 THEN 1 ELSE 64, types[r.t][2])

AllocOne(p, bytes, align, res, ms, un, nf) ==
  \/ \E P \in Served(pool[p], NewRegs(ms), bytes, align, ms, res) :
       Commit(ms, un, [pool EXCEPT ![p] = P], multi, ref, {})
  \/ /\ nf = 1 /\ res = <<"oom">>
     /\ Commit(ms, un, pool, multi, ref, {ms[i][4] : i \in Grants(ms)})

Classes(m, cl, mu) == {cl[i] : i \in DOMAIN cl} = DOMAIN mu[m].ch /\ Len(cl) = Cardinality(DOMAIN mu[m].ch)

AllocMulti(m, bytes, align, res, ms, un, nf, cl) ==
  LET c == SizeClass(bytes) M == multi[m] IN
  IF c \in DOMAIN M.ch
  THEN AllocOne(M.ch[c], c, align, res, ms, un, nf) /\ Classes(m, cl, multi) /\ UNCHANGED np
  ELSE \/ /\ res = <<"oom">>
          /\ Holds(nf = 1 \/ CreationRefused(M.init, M.req, ms))
          /\ Classes(m, cl, multi)
          /\ Failed(ms, un)
       \/ \E k \in 0..Len(ms) : \E a \in {SubSeq(ms, 1, k)}, b \in {SubSeq(ms, k + 1, Len(ms))} :
            \E P \in Created(M.init, M.grow, M.req, a) :
            \E Q \in Served(P, NewRegs(ms), c, align, b, res) \cup (IF nf = 1 /\ res = <<"oom">> THEN {P} ELSE {}) :
            \E mu \in {[multi EXCEPT ![m].ch = Ext(@, c, np)]} :
              /\ Classes(m, cl, mu)
              /\ Commit(ms, un, Ext(pool, np, Q), mu, ref,
                        IF res = <<"oom">> THEN {b[i][4] : i \in Grants(b)} ELSE {})
              /\ np' = np + 1

Alloc(h, n, bytes, align, res, ms, un, nf, cl) ==
  \E r \in {ref[h]} :
  CASE (IF r.k \in {"P", "M"} THEN bytes = 0 ELSE n = 0) -> res = <<"null">> /\ ms = <<>> /\ Nothing(un)
    [] r.k \in {"H", "T"} /\ n > 1 -> res = <<"inv">> /\ ms = <<>> /\ Nothing(un)
    [] r.k = "S" /\ bytes = -1 -> res = <<"oom">> /\ ms = <<>> /\ Classes(r.a, cl, multi) /\ Nothing(un)
    [] r.k \in {"M", "S"} -> AllocMulti(r.a, BytesOf(r, n, bytes), AlignOf(r, align), res, ms, un, nf, cl)
    [] OTHER -> AllocOne(ForType(r), BytesOf(r, n, bytes), AlignOf(r, align), res, ms, un, nf) /\ UNCHANGED np

\* rid = 0: a null pointer
Free(h, n, bytes, rid, off, res, un) ==
  \E r \in {ref[h]} :
  CASE rid = 0 \/ (IF r.k \in {"P", "M"} THEN bytes = 0 ELSE n = 0) -> res = "ok" /\ Nothing(un)
    [] r.k \in {"H", "T"} /\ n > 1 -> res = "inv" /\ Nothing(un)
    [] OTHER ->
        \E sz \in {IF r.k \in {"M", "S"} THEN SizeClass(BytesOf(r, n, bytes)) ELSE BytesOf(r, n, bytes)} :
        \E p \in {IF r.k \in {"M", "S"} THEN multi[r.a].ch[sz] ELSE ForType(r)} :
          /\ res = "ok"
          /\ <<rid, off, sz>> \in pool[p].used
          /\ Commit(<<>>, un, [pool EXCEPT ![p] = Release(@, <<rid, off, sz>>)], multi, ref, {})
          /\ UNCHANGED np

-----------------------------------------------------------------------------
(* Trees whose pools are not followed one by one: regions appear, and go only *)
(* when a tree or handle ends, each once and with its true size.            *)
TreeStep(ends, ms, un) ==
  \E R \in {NewRegs(ms)}, got \in {{ms[i][4] : i \in Grants(ms)}} :
    /\ got \cap DOMAIN reg = {}
    /\ un /= <<>> => ends = 1 \/ {un[i][1] : i \in DOMAIN un} \subseteq got
    /\ \A i \in DOMAIN un : un[i][1] \in mapped \cup got /\ un[i][2] = R[un[i][1]].size
    /\ Len(un) = Cardinality({un[i][1] : i \in DOMAIN un})
    /\ mapped' = (mapped \cup got) \ {un[i][1] : i \in DOMAIN un}
    /\ reg' = R
    /\ UNCHANGED <<pool, multi, ref, types, np>>

-----------------------------------------------------------------------------
(* Observations                                                             *)
\* s = <<using huge pages, bytes left, initial, growth (-1: not offered), stats>>
Report(p, s) ==
  \E P \in {pool[p]} :
    /\ s[1] = P.huge
    /\ s[2] = reg[P.cur].size - P.hw
    /\ s[3] = -1 \/ (s[3] = P.init /\ s[4] = P.grow)
    /\ s[5] = (IF types[1][4] = 1 THEN P.st ELSE NoStats)
Stats(h, ss) ==
  /\ Holds(CASE ref[h].k \in {"P", "H"} -> Len(ss) = 1 /\ Report(ref[h].a, ss[1])
       [] ref[h].k = "T" -> Len(ss) = 2 /\ Report(ref[h].a, ss[1]) /\ Report(ref[h].b, ss[2])
       [] OTHER -> LET ch == multi[ref[h].a].ch
                   IN /\ {ss[i][6] : i \in DOMAIN ss} = DOMAIN ch /\ Len(ss) = Cardinality(DOMAIN ch)
                      /\ \A i \in DOMAIN ss : Report(ch[ss[i][6]], ss[i]))
  /\ UNCHANGED <<reg, mapped, pool, multi, ref, types, np>>
Same(g, h) ==
  LET a == ref[g] b == ref[h] IN
  IF a.k = "T" THEN ForType(a) = ForType(b) ELSE a.a = b.a
Equal(g, h, eq, ne) ==
  /\ eq = (IF Same(g, h) THEN 1 ELSE 0)
  /\ ne = 1 - eq
  /\ UNCHANGED <<reg, mapped, pool, multi, ref, types, np>>
AnyHuge(h, x) ==
  /\ x = (IF \E p \in PRange(multi[ref[h].a].ch) : pool[p].huge = 1 THEN 1 ELSE 0)
  /\ UNCHANGED <<reg, mapped, pool, multi, ref, types, np>>

\* size classes: results for lo, lo+1, ...; and for one large size, both in
\* four digits to the base 65536, most significant first
Table(lo, cs) == \A i \in DOMAIN cs : cs[i] = SizeClass(lo + i - 1)
Less(x, y) == \E i \in 1..4 : x[i] < y[i] /\ \A j \in 1..(i-1) : x[j] = y[j]
PowerOf2(x) == \E i \in 1..4 : /\ \A j \in (1..4) \ {i} : x[j] = 0
                              /\ x[i] \in {2^e : e \in 0..15}
Half(x) == [i \in 1..4 |-> (x[i] \div 2) + (IF i > 1 /\ x[i-1] % 2 = 1 THEN 32768 ELSE 0)]
LargeClass(x, c) ==
  IF Less(<<32768, 0, 0, 0>>, x) THEN ~Less(c, x)       \* no power of two
  ELSE PowerOf2(c) /\ ~Less(c, x) /\ Less(Half(c), x)

Event(e) ==
  CASE e[1] = "reset" -> /\ e[2] = Cardinality(mapped) /\ mapped = {}
                         /\ reg' = Empty /\ mapped' = {} /\ pool' = Empty /\ multi' = Empty
                         /\ ref' = Empty /\ types' = e[3] /\ np' = 1
    [] e[1] = "np" -> NewOne("P", e[2], 0, e[3], e[4], e[5], e[6], e[7], e[8], e[9])
    [] e[1] = "nh" -> NewOne("H", e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10])
    [] e[1] = "nt" -> NewTwo(e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12])
    [] e[1] = "nm" -> NewMulti(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "ns" -> Derive(e[2], H("S", e[3], ref[e[4]].a, 0), e[5])
    [] e[1] = "nq" -> Derive(e[2], H("T", e[3], ref[e[4]].a, ref[e[5]].a), e[6])
    [] e[1] = "gm" -> Derive(e[2], H("M", 0, ref[e[3]].a, 0), e[4])
    [] e[1] = "gl" -> Derive(e[2], H("P", 0, ref[e[3]].a, ref[e[3]].a), e[4])
    [] e[1] = "gi" -> Derive(e[2], H("P", 0, ref[e[3]].b, ref[e[3]].b), e[4])
    [] e[1] = "cp" -> Derive(e[2], ref[e[3]], e[4])
    [] e[1] = "as" -> Derive(e[2], ref[e[3]], e[4])
    [] e[1] = "sw" -> /\ Commit(<<>>, e[4], pool, multi, [ref EXCEPT ![e[2]] = ref[e[3]], ![e[3]] = ref[e[2]]], {})
                      /\ UNCHANGED np
    [] e[1] = "dr" -> Commit(<<>>, e[3], pool, multi, Without(ref, {e[2]}), {}) /\ UNCHANGED np
    [] e[1] = "rb" -> Rebind(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
    [] e[1] = "al" -> Alloc(e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10])
    [] e[1] = "fr" -> Free(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
    [] e[1] = "tr" -> TreeStep(e[2], e[3], e[4])
    [] e[1] = "tg" -> e[2] = 1 /\ UNCHANGED <<reg, mapped, pool, multi, ref, types, np>>  \* a tree's allocator is the one it was made with
    [] e[1] = "st" -> Stats(e[2], e[3])
    [] e[1] = "eq" -> Equal(e[2], e[3], e[4], e[5])
    [] e[1] = "hg" -> AnyHuge(e[2], e[3])
    [] e[1] = "chk" -> e[2] = <<>> /\ Holds(\A p \in DOMAIN pool : PoolOK(pool[p], reg)) /\ UNCHANGED <<reg, mapped, pool, multi, ref, types, np>>
    [] e[1] = "cls" -> Holds(Table(e[2], e[3])) /\ UNCHANGED <<reg, mapped, pool, multi, ref, types, np>>
    [] e[1] = "big" -> Holds(LargeClass(e[2], e[3])) /\ UNCHANGED <<reg, mapped, pool, multi, ref, types, np>>
    [] OTHER -> FALSE      \* "crash" and anything else

Next == /\ l <= N
        /\ l' = l + 1
        /\ \E e \in {Trace[l]} : Event(e)
TSpec == Init /\ [][Next]_vars
TView == l
Accepted == TLCGet("stats").diameter - 1 = N
=============================================================================
