------------------------------ MODULE BigTrace ------------------------------
(* Validates executions of large trees and large bounded maps: each event is *)
(* one call, or the same call for every key of a range.                      *)
(*   c[o]   contents (runs); has[o] the object exists; cap[o] its capacity    *)
(*          (0: none); caps = <<leaf, inner node capacity, search mode>>     *)
EXTENDS Big, FiniteSets, TLC, Json, IOUtils

CONSTANTS U, NO
VARIABLES l, c, has, cap, caps
vars == <<l, c, has, cap, caps>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Objs == 1..NO
ERR == 2

Init == /\ l = 1 /\ c = [o \in Objs |-> <<>>] /\ has = [o \in Objs |-> FALSE]
        /\ cap = [o \in Objs |-> 0] /\ caps = <<8, 8, 0>>

B(x) == IF x THEN 1 ELSE 0
Holds(x) == IF x THEN TRUE ELSE FALSE
Still == UNCHANGED <<c, has, cap, caps>>
Put(o, R) == c' = [c EXCEPT ![o] = R] /\ UNCHANGED <<has, cap, caps>>
Pos(R, k, rk, rg) == rk = k /\ rg = Get(R, k)
Room(o, R) == cap[o] = 0 \/ Total(R) <= cap[o]

\* every key of lo..hi inserted (g kept where present) or assigned
FillAll(o, lo, hi, g, ins, s) ==
  \E R \in {Fill(c[o], lo, hi, g)} :
    /\ ins = Total(R) - Total(c[o]) /\ s = Total(R) /\ Room(o, R) /\ Put(o, R)
CoverAll(o, lo, hi, g, ins, s) ==
  \E R \in {Cover(c[o], lo, hi, g)} :
    /\ ins = Total(R) - Total(c[o]) /\ s = Total(R) /\ Room(o, R) /\ Put(o, R)
Refused(o, k, s) ==      \* full: an absent key always, a present one if nothing would be assigned
  cap[o] # 0 /\ s = Total(c[o]) /\ s >= cap[o]
Insert(o, k, g, out, rk, rg, s) ==
  IF out = ERR THEN Refused(o, k, s) /\ Still
  ELSE \E R \in {Fill(c[o], k, k, g)} :
         /\ out = B(Get(c[o], k) = 0) /\ Room(o, R) /\ Pos(R, k, rk, rg) /\ s = Total(R) /\ Put(o, R)
Assign(o, k, g, out, rk, rg, s) ==
  IF out = ERR THEN Get(c[o], k) = 0 /\ Refused(o, k, s) /\ Still
  ELSE \E R \in {Cover(c[o], k, k, g)} :
         /\ out = B(Get(c[o], k) = 0) /\ Room(o, R) /\ Pos(R, k, rk, rg) /\ s = Total(R) /\ Put(o, R)
\* lo..hi erased: by key (cnt reported), in a loop over positions (cnt steps) or
\* as a range (cnt = -1); the position returned last is the successor
Erase(o, lo, hi, cnt, rk, rg, s) ==
  \E R \in {Remove(c[o], lo, hi)} :
    /\ cnt = -1 \/ cnt = Total(c[o]) - Total(R)
    /\ rk = -1 \/ Pos(R, NotBefore(R, hi + 1), rk, rg)
    /\ s = Total(R) /\ Put(o, R)

Lookup(o, k, rk, rg, to) == Pos(c[o], to, rk, rg) /\ Still
Scan(o, flat) ==
  /\ Len(flat) = 3 * Len(c[o])
  /\ \A i \in DOMAIN c[o] : c[o][i] = <<flat[3*i-2], flat[3*i-1], flat[3*i]>>
  /\ Still
\* the position at key k (0 the end) moved by d; 0 where that is the end
Walk(o, k, d, rk, rg) ==
  \E i \in {Index(c[o], k) + d} :
    /\ i >= 0 /\ i <= Total(c[o]) /\ Pos(c[o], Nth(c[o], i), rk, rg) /\ Still

New(o, x) == /\ ~has[o] /\ has' = [has EXCEPT ![o] = TRUE] /\ c' = [c EXCEPT ![o] = <<>>]
             /\ cap' = [cap EXCEPT ![o] = x] /\ UNCHANGED caps
Delete(o) == /\ has[o] /\ has' = [has EXCEPT ![o] = FALSE] /\ c' = [c EXCEPT ![o] = <<>>]
             /\ UNCHANGED <<cap, caps>>
\* o becomes what src is; src keeps it (copy) or is left empty (move)
Made(o, src, keep) ==
  /\ ~has[o] /\ has[src] /\ has' = [has EXCEPT ![o] = TRUE]
  /\ c' = [c EXCEPT ![o] = c[src], ![src] = IF keep THEN c[src] ELSE <<>>]
  /\ cap' = [cap EXCEPT ![o] = cap[src]] /\ UNCHANGED caps
Assigned(o, src, keep) ==
  /\ has[o] /\ has[src]
  /\ c' = IF o = src THEN c ELSE [c EXCEPT ![o] = c[src], ![src] = IF keep THEN c[src] ELSE <<>>]
  /\ UNCHANGED <<has, cap, caps>>
Swapped(o, src) == c' = [c EXCEPT ![o] = c[src], ![src] = c[o]] /\ UNCHANGED <<has, cap, caps>>

\* moving the elements with index a..b-1 of src to the end or front of dst
Moved(src, dst, a, b, out, ns, nd) ==
  /\ IF out = ERR THEN Still
     ELSE \E P \in {Part(c[src], a, b)} :
            /\ c' = [c EXCEPT ![src] = Join(Part(@, 0, a), Part(@, b, Total(@))),
                              ![dst] = IF Len(@) = 0 \/ Len(P) = 0 \/ @[Len(@)][2] < P[1][1] THEN Join(@, P) ELSE Join(P, @)]
            /\ UNCHANGED <<has, cap, caps>>
  /\ ns = Total(c'[src]) /\ nd = Total(c'[dst])
Split(src, dst, i, out, ns, nd) ==
  /\ out = (IF c[dst] # <<>> \/ Total(c[src]) - i > cap[dst] THEN ERR ELSE 0)
  /\ Moved(src, dst, i, Total(c[src]), out, ns, nd)
Prefix(dst, src, cnt, out, nd, ns) ==
  /\ out = (IF cnt > Total(c[src]) \/ Total(c[dst]) + cnt > cap[dst] THEN ERR ELSE 0)
  /\ Moved(src, dst, 0, cnt, out, ns, nd)
Suffix(dst, src, cnt, out, nd, ns) ==
  /\ out = (IF cnt > Total(c[src]) \/ Total(c[dst]) + cnt > cap[dst] THEN ERR ELSE 0)
  /\ Moved(src, dst, Total(c[src]) - cnt, Total(c[src]), out, ns, nd)

(* The shape of tree o, level by level from the leaves: <<nodes, smallest,   *)
(* largest, all entries>>; all leaves have depth d1..d2; bad counts nodes     *)
(* that disagree with their children on keys or on who is whose parent.      *)
Shape(o, lv, d1, d2, bad) ==
  \E s \in {Total(c[o])} : \E h \in {Len(lv)} :
  IF s = 0 THEN h <= 1 /\ Still
  ELSE /\ h >= 1 /\ bad = 0 /\ d1 = h /\ d2 = h
       /\ lv[1][4] = s /\ lv[h][1] = 1
       /\ \A i \in 2..h : lv[i][4] = lv[i-1][1] /\ lv[i][2] >= 2
       /\ \A i \in 1..h : LET k == caps[IF i = 1 THEN 1 ELSE 2]
                          IN lv[i][3] <= k /\ (i < h => 8 * lv[i][2] >= 3 * k)
       /\ Still
\* comparator calls of one lookup (as in Nodes)
Ceil(a, b) == (a + b - 1) \div b
RECURSIVE Levels(_), Log2(_)
Levels(k) == IF k < 2 THEN 0 ELSE 1 + Levels(k \div Ceil(3 * caps[2], 8))
MaxLevels(k) == 1 + Levels(Max(1, k \div Ceil(3 * caps[1], 8)))
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2(Ceil(x, 2))
PerNode(k) == IF caps[3] = 0 THEN Log2(k + 1) + 4 ELSE k + 4
Cost(o, calls) == calls <= 2 * ((MaxLevels(Total(c[o])) - 1) * PerNode(caps[2]) + PerNode(caps[1]))

Event(e) ==
  LET op == e[1] o == e[2] IN
  CASE op = "cfg"   -> /\ c' = [x \in Objs |-> <<>>] /\ has' = [x \in Objs |-> FALSE]
                       /\ cap' = [x \in Objs |-> 0] /\ caps' = <<e[3], e[4], e[5]>>
    [] op = "new"   -> New(o, e[3])
    [] op = "del"   -> Delete(o)
    [] op = "fill"  -> FillAll(o, e[3], e[4], e[5], e[6], e[7])
    [] op = "cover" -> CoverAll(o, e[3], e[4], e[5], e[6], e[7])
    [] op = "ins"   -> Insert(o, e[3], e[4], e[5], e[6], e[7], e[8])
    [] op = "ioa"   -> Assign(o, e[3], e[4], e[5], e[6], e[7], e[8])
    [] op = "drop"  -> Erase(o, e[3], e[4], e[5], e[6], e[7], e[8])
    [] op = "fnd"   -> Lookup(o, e[3], e[4], e[5], IF Get(c[o], e[3]) = 0 THEN 0 ELSE e[3])
    [] op = "lb"    -> Lookup(o, e[3], e[4], e[5], NotBefore(c[o], e[3]))
    [] op = "ub"    -> Lookup(o, e[3], e[4], e[5], NotBefore(c[o], e[3] + 1))
    [] op = "er"    -> e[4] = NotBefore(c[o], e[3]) /\ e[5] = NotBefore(c[o], e[3] + 1) /\ Still
    [] op = "sz"    -> e[3] = Total(c[o]) /\ e[4] = B(c[o] = <<>>) /\ Still
    [] op = "full"  -> e[3] = B(Total(c[o]) = cap[o]) /\ e[4] = cap[o] /\ Still
    [] op = "scan"  -> Scan(o, e[3])
    [] op = "walk"  -> Walk(o, e[3], e[4], e[5], e[6])
    [] op = "ix"    -> e[4] = Index(c[o], e[3]) /\ Still
    [] op = "ra"    -> (LET k == Nth(c[o], e[3]) IN e[4] = k /\ e[5] = Get(c[o], k)) /\ Still
    [] op = "clr"   -> Put(o, <<>>) /\ e[3] = 0
    [] op = "cpy"   -> Made(o, e[3], TRUE)
    [] op = "mov"   -> Made(o, e[3], FALSE)
    [] op = "asg"   -> Assigned(o, e[3], TRUE)
    [] op = "masg"  -> Assigned(o, e[3], FALSE)
    [] op = "swp"   -> Swapped(o, e[3])
    [] op = "spl"   -> Split(o, e[3], e[4], e[5], e[6], e[7])
    [] op = "pre"   -> Prefix(o, e[3], e[4], e[5], e[6], e[7])
    [] op = "suf"   -> Suffix(o, e[3], e[4], e[5], e[6], e[7])
    [] op = "shp"   -> Shape(o, e[3], e[4], e[5], e[6])
    [] op = "held"  -> \* nodes held, reached, empty trees, wrong returns
                       e[3] >= e[4] /\ e[3] - e[4] <= e[5] /\ e[6] = 0 /\ Still
    [] op = "cost"  -> Holds(Cost(o, e[3])) /\ Still
    [] op = "ok"    -> e[3] = 1 /\ Still
    [] OTHER        -> FALSE

TNext == /\ l <= N /\ l' = l + 1
         /\ \E e \in {Trace[l]} : Event(e)
TSpec == Init /\ [][TNext]_vars
TView == l
Accepted == TLCGet("stats").diameter - 1 = N
=============================================================================
