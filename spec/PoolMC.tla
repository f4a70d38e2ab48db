------------------------------- MODULE PoolMC -------------------------------
(* The pool design explored exhaustively over small regions: every sequence *)
(* of requests and releases, with every pattern of refused mappings and     *)
(* every placement of the regions.  Sizes are in units of a page.           *)
EXTENDS Pool, TLC

CONSTANTS SIZES, ALIGNS, FIRST, STEP, WANT, MAXREG, MAXBLK

VARIABLES P, R, peak, hist
vars == <<P, R, peak, hist>>
View == <<P.regs, P.cur, P.hw, P.used, P.free, R, peak>>

Mods == 0..1
RSize(huge, n) == IF huge = 1 THEN UpTo(n, HUGE) ELSE n

\* ways the system may answer a wish for n units: mapping requests made
Answers(want, n, rid) ==
  LET yes(huge) == {<<huge, RSize(huge, n), 1, rid, IF huge = 1 THEN 0 ELSE m>> : m \in Mods}
      no(huge) == <<huge, RSize(huge, n), 0, 0, 0>>
  IN IF want = 1
     THEN {<<y>> : y \in yes(1)} \cup {<<no(1), y>> : y \in yes(0)} \cup {<<no(1), no(0)>>}
     ELSE {<<y>> : y \in yes(0)} \cup {<<no(0)>>}
With(ms) == IF Granted(ms)
            THEN [r \in DOMAIN R \cup {NewRid(ms)} |->
                   IF r \in DOMAIN R THEN R[r] ELSE [size |-> ms[Len(ms)][2], mod |-> ms[Len(ms)][5]]]
            ELSE R

MInit == \E ms \in Answers(WANT, FIRST, 1) :
          /\ Granted(ms)
          /\ \E Q \in Created(FIRST, STEP, WANT, ms) : P = Q
          /\ R = [r \in {1} |-> [size |-> ms[Len(ms)][2], mod |-> ms[Len(ms)][5]]]
          /\ peak = [s \in SIZES |-> 0]
          /\ hist = <<<<"n", ms>>>>

UsedOf(Q, s) == Cardinality({b \in Q.used : b[3] = s})
NeedsGrowth(s, a) == Reusable(P, R, s, a) = {} /\ ~RestFits(P, R, s, a)
Want(s, a) == Max2(P.grow, s + IF a > 1 THEN a ELSE 0)

MAlloc(s, a) ==
  /\ Cardinality(P.used) < MAXBLK
  /\ \E ms \in IF NeedsGrowth(s, a) THEN Answers(P.huge, Want(s, a), Cardinality(DOMAIN R) + 1) ELSE {<<>>} :
     \E RR \in {With(ms)} :
     \E res \in {<<"oom">>} \cup {<<"ok", r, o>> : r \in DOMAIN RR, o \in 0..7} :
     \E Q \in Served(P, RR, s, a, ms, res) :
        /\ Cardinality(DOMAIN RR) <= MAXREG
        /\ P' = Q /\ R' = RR
        /\ peak' = [peak EXCEPT ![s] = Max2(@, UsedOf(Q, s))]
        /\ hist' = Append(hist, <<"a", s, a, ms, res>>)
MFree(b) ==
  /\ b \in P.used
  /\ P' = Release(P, b)
  /\ hist' = Append(hist, <<"f", b[1], b[2]>>)
  /\ UNCHANGED <<R, peak>>

MNext == \/ \E s \in SIZES, a \in ALIGNS : MAlloc(s, a)
         \/ \E b \in P.used : MFree(b)
MSpec == MInit /\ [][MNext]_vars

Sound == PoolOK(P, R)
\* memory in use bounded: so is the number of blocks ever made
Bounded == \A s \in SIZES :
  Cardinality({b \in P.used \cup P.free : b[3] = s}) <= Cardinality(ALIGNS) * peak[s]
\* every request is answered, one way or the other
Answered == \A s \in SIZES, a \in ALIGNS :
  \A ms \in IF NeedsGrowth(s, a) THEN Answers(P.huge, Want(s, a), Cardinality(DOMAIN R) + 1) ELSE {<<>>} :
    \E res \in {<<"oom">>} \cup {<<"ok", r, o>> : r \in DOMAIN With(ms), o \in 0..7} :
      Served(P, With(ms), s, a, ms, res) /= {}
\* every block handed out is aligned as requested and was not in use
Handed == LET e == hist'[Len(hist')] IN
  e[1] = "a" /\ e[5][1] = "ok" =>
    \E r \in {e[5][2]}, o \in {e[5][3]} :
      /\ (R'[r].mod + o) % e[3] = 0
      /\ \A b \in P.used : b[1] /= r \/ b[2] + b[3] <= o \/ o + e[2] <= b[2]
HandedOut == [][hist' /= hist => Handed]_vars

(* Mistakes, put in place of the definitions they are named after: TLC must  *)
(* refute them.                                                             *)
BadRestFits(Q, RR, bytes, align) == bytes < LIMIT /\ Q.hw + bytes <= RR[Q.cur].size
BadReusable(Q, RR, bytes, align) == {b \in Q.free : b[3] = bytes}
BadReusable2(Q, RR, bytes, align) == {}
BadReuse(Q, b) == [Q EXCEPT !.used = @ \cup {b}, !.st = CountAlloc(@, b[3])]
BadTakeRest(Q, RR, bytes, align) ==
  LET o == Aligned(RR[Q.cur], Q.hw, align)
  IN [Q EXCEPT !.hw = @ + bytes, !.used = @ \cup {<<Q.cur, o, bytes>>}, !.st = CountAlloc(@, bytes)]
BadGrow(Q, rid) == [Q EXCEPT !.regs = @ \cup {rid}, !.cur = rid, !.st = CountGrow(@)]
BadCountAlloc(st, bytes) ==
  <<st[1] + 1, st[2], st[3], st[4] + bytes, st[5] + bytes, Max2(st[6], st[5])>>

Emit == PrintT("X" \o ToString(hist'))
=============================================================================
