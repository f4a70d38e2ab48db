-------------------------------- MODULE Pool --------------------------------
(* Memory pools: regions obtained from the system, a current region handed  *)
(* out from its start, and freed blocks kept for reuse.  A pool is a record *)
(*   init, grow  configured sizes                                          *)
(*   req, huge   1 if huge pages were asked for, if it runs on them        *)
(*   regs        its regions; cur the current one (0 if none)              *)
(*   hw          how far the current region has been handed out            *)
(*   used, free  blocks <<region, offset, bytes>>                          *)
(*   st          <<allocations, releases, growths, lifetime bytes, bytes in *)
(*               use, peak>>                                               *)
(* A region is [size, mod]: its length and its address modulo MODULUS.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS HUGE,     \* huge page size
          LIMIT,    \* requests this large are never granted
          UNIT      \* bytes are counted in units of this many (1 or 65536)

Max2(a, b) == IF a > b THEN a ELSE b
UpTo(x, a) == ((x + a - 1) \div a) * a
Cap(x) == IF x > LIMIT THEN LIMIT ELSE x
PRange(f) == {f[x] : x \in DOMAIN f}

NoStats == <<0, 0, 0, 0, 0, 0>>
NewPool(init, grow, req, huge, rid) ==
  [init |-> init, grow |-> grow, req |-> req, huge |-> huge, regs |-> {rid}, cur |-> rid, hw |-> 0,
   used |-> {}, free |-> {}, st |-> NoStats]

(* First offset in region r, not before offset o, whose address is aligned. *)
Aligned(r, o, align) == UpTo(r.mod + o, align) - r.mod
AlignedAt(r, o, align) == (r.mod + o) % align = 0

Reusable(P, R, bytes, align) ==
  {b \in P.free : b[3] = bytes /\ AlignedAt(R[b[1]], b[2], align)}
RestFits(P, R, bytes, align) ==
  /\ bytes < LIMIT
  /\ Aligned(R[P.cur], P.hw, align) + bytes <= R[P.cur].size

(* Statistics                                                              *)
CountAlloc(st, bytes) ==
  <<st[1] + 1, st[2], st[3], st[4] + bytes, st[5] + bytes, Max2(st[6], st[5] + bytes)>>
CountFree(st, bytes) == <<st[1], st[2] + 1, st[3], st[4], st[5] - bytes, st[6]>>
CountGrow(st) == [st EXCEPT ![3] = @ + 1]

(* Steps of one pool.                                                      *)
Reuse(P, b) == [P EXCEPT !.free = @ \ {b}, !.used = @ \cup {b}, !.st = CountAlloc(@, b[3])]
TakeRest(P, R, bytes, align) ==
  LET o == Aligned(R[P.cur], P.hw, align)
  IN [P EXCEPT !.hw = o + bytes, !.used = @ \cup {<<P.cur, o, bytes>>},
               !.st = CountAlloc(@, bytes)]
Grow(P, rid) == [P EXCEPT !.regs = @ \cup {rid}, !.cur = rid, !.hw = 0, !.st = CountGrow(@)]
Release(P, b) == [P EXCEPT !.used = @ \ {b}, !.free = @ \cup {b}, !.st = CountFree(@, b[3])]

(* The mapping requests <<huge, size, granted, region, mod>> made to obtain *)
(* a region of at least lo bytes (and about hi at most): huge pages first   *)
(* if wanted, ordinary pages if these are refused.                          *)
HugeTry(m, lo, hi) == m[1] = 1 /\ m[2] >= Cap(lo) /\ m[2] <= UpTo(Cap(hi), HUGE) /\ m[2] % HUGE = 0
PlainTry(m, lo, hi) == m[1] = 0 /\ m[2] >= Cap(lo) /\ m[2] <= Cap(hi)
Attempt(want, lo, hi, ms) ==
  IF want = 1
  THEN \/ Len(ms) = 1 /\ ms[1][3] = 1 /\ HugeTry(ms[1], lo, hi)
       \/ Len(ms) = 2 /\ ms[1][3] = 0 /\ HugeTry(ms[1], lo, hi) /\ PlainTry(ms[2], lo, hi)
       \/ Len(ms) = 1 /\ PlainTry(ms[1], lo, hi) /\ hi >= LIMIT  \* cannot be rounded
  ELSE Len(ms) = 1 /\ PlainTry(ms[1], lo, hi)
Granted(ms) == ms /= <<>> /\ ms[Len(ms)][3] = 1
NewRid(ms) == ms[Len(ms)][4]

(* One request to pool P, with mapping requests ms, result res (<<"ok",     *)
(* region, offset>> or <<"oom">>): the set of pools it may leave.           *)
Served(P, R, bytes, align, ms, res) ==
  IF Reusable(P, R, bytes, align) /= {}
  THEN IF ms = <<>> /\ res[1] = "ok"
       THEN {Reuse(P, b) : b \in {x \in Reusable(P, R, bytes, align) : x[1] = res[2] /\ x[2] = res[3]}}
       ELSE {}
  ELSE IF RestFits(P, R, bytes, align)
  THEN IF ms = <<>> /\ res = <<"ok", P.cur, Aligned(R[P.cur], P.hw, align)>>
       THEN {TakeRest(P, R, bytes, align)}
       ELSE {}
  ELSE IF bytes >= LIMIT /\ ms = <<>>
  THEN IF res = <<"oom">> THEN {P} ELSE {}
  ELSE IF ~Attempt(P.huge, Max2(P.grow, bytes), Max2(P.grow, bytes + align), ms)
  THEN {}
  ELSE IF ~Granted(ms)
  THEN IF res = <<"oom">> THEN {P} ELSE {}
  ELSE LET Q == Grow(P, NewRid(ms))
       IN IF RestFits(Q, R, bytes, align) /\ res = <<"ok", Q.cur, Aligned(R[Q.cur], 0, align)>>
          THEN {TakeRest(Q, R, bytes, align)}
          ELSE {}

(* Creation of a pool: the set of pools it may yield; empty if the system   *)
(* refuses (then Attempt holds and nothing is granted).                     *)
Created(init, grow, req, ms) ==
  IF Attempt(req, init, init, ms) /\ Granted(ms)
  THEN {NewPool(init, grow, req, ms[Len(ms)][1], NewRid(ms))}
  ELSE {}
CreationRefused(init, req, ms) == Attempt(req, init, init, ms) /\ ~Granted(ms)

(* Size classes.                                                           *)
RECURSIVE Pow2From(_, _)
Pow2From(p, n) == IF p >= n THEN p ELSE Pow2From(2 * p, n)
SizeClass(n) == IF UNIT > 1 /\ n < LIMIT THEN Pow2From(1, n)  \* all above 2048 bytes
                ELSE IF n <= 512 THEN UpTo(n, 64)
                ELSE IF n <= 2048 THEN UpTo(n, 256)
                ELSE IF n >= LIMIT THEN n   \* see enc() in drv_pool.hpp
                ELSE Pow2From(4096, n)

(* What must hold of every pool.                                           *)
Inside(P, R) == \A b \in P.used \cup P.free :
  b[1] \in P.regs /\ b[2] >= 0 /\ b[2] + b[3] <= R[b[1]].size
Apart(B) == \A a, b \in B : a /= b => a[1] /= b[1] \/ a[2] + a[3] <= b[2] \/ b[2] + b[3] <= a[2]
PoolOK(P, R) ==
  /\ P.used \cap P.free = {}
  /\ Inside(P, R)
  /\ Apart(P.used \cup P.free)
  /\ \A b \in P.used \cup P.free : b[1] = P.cur => b[2] + b[3] <= P.hw
  /\ P.hw <= R[P.cur].size
  /\ P.st[1] - P.st[2] = Cardinality(P.used)
  /\ P.st[3] = Cardinality(P.regs) - 1
  /\ P.st[6] >= P.st[5] /\ P.st[4] >= P.st[6]
=============================================================================
