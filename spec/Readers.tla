------------------------------ MODULE Readers -------------------------------
(* Several readers of one tree, interleaved at every step of their descents *)
(* and walks.  A reader's step reads one node; what matters is that it      *)
(* writes nothing shared: then every interleaving gives every reader the    *)
(* answer it would get alone.                                              *)
(*                                                                         *)
(* With HINT = TRUE lookups remember, in shared memory and in two stores,   *)
(* where they ended, and start from there: the kind of change C22 excludes. *)
(* The model then violates Answers, which shows that the invariant can be   *)
(* violated at all.                                                        *)
EXTENDS BTree

CONSTANTS Readers, HINT, Sizes

VARIABLES shared,   \* what lookups store: <<leaf, lower end of the keys it is right for>>
          rd        \* per reader: <<what, key, node, answer>>

Idle == <<"idle", 0, 0, 0>>

\* trees to read: built by ascending insertion, then thinned
RECURSIVE Build(_, _), Thin(_, _)
Build(x, c) == IF c = 0 THEN x ELSE LET y == Build(x, c - 1) IN Renum(Insert(y, 2 * c - 1).x, c, AfterIns)
Thin(x, g) == IF g > Count(x) THEN x
              ELSE LET f == Descend(x, x.root, 2 * g)
                   IN Thin(Renum(Erase(x, f, Lower(Ks(x, f), 2 * g)).x, g, AfterDel), g + 3)

RInit == /\ \E c \in Sizes : t \in {Build(Empty, c), Thin(Build(Empty, c), 2)}
         /\ ok = TRUE /\ lab = <<>>
         /\ shared = <<0, 0>>
         /\ rd = [r \in Readers |-> Idle]

Set(r, v) == rd' = [rd EXCEPT ![r] = v]
Same == UNCHANGED <<t, ok, lab>>

\* begin a lookup for key k (find, bounds), or a walk from the first element
Begin(r) ==
    /\ rd[r] = Idle
    /\ \/ \E k \in 1..(2 * Count(t) + 1) :
            Set(r, <<"down", k,
                     IF HINT /\ shared[1] # 0 /\ shared[2] <= k /\ k <= shared[2] + 2 THEN shared[1] ELSE t.root, 0>>)
       \/ Count(t) > 0 /\ Set(r, <<"walk", 1, t.lm, 0>>)
       \/ Count(t) > 0 /\ Set(r, <<"back", Count(t), t.rm, 0>>)
    /\ UNCHANGED shared /\ Same

\* one level down
Down(r) ==
    /\ rd[r][1] = "down" /\ ~Leaf(t, rd[r][3])
    /\ LET i == rd[r][3] k == rd[r][2] p == Lower(Ks(t, i), k)
           j == IF p > 1 /\ (p > Size(t, i) \/ k < Ks(t, i)[p]) THEN p - 1 ELSE p
       IN Set(r, <<"down", k, Kids(t, i)[j], 0>>)
    /\ UNCHANGED shared /\ Same
\* in the leaf: the first element not before the key
Search(r) ==
    /\ rd[r][1] = "down" /\ Leaf(t, rd[r][3])
    /\ LET i == rd[r][3] k == rd[r][2] p == Lower(Ks(t, i), k)
       IN IF p <= Size(t, i) THEN Set(r, <<IF HINT THEN "note1" ELSE "done", k, i, Ks(t, i)[p]>>)
          ELSE Set(r, <<"over", k, Next(t, i), 0>>)
    /\ UNCHANGED shared /\ Same
\* ... which may be the first of the next leaf
Over(r) ==
    /\ rd[r][1] = "over"
    /\ Set(r, <<"done", rd[r][2], rd[r][3], IF rd[r][3] = 0 THEN 0 ELSE Ks(t, rd[r][3])[1]>>)
    /\ UNCHANGED shared /\ Same
\* the stores of the variant with a hint
Note1(r) == /\ rd[r][1] = "note1" /\ shared' = [shared EXCEPT ![1] = rd[r][3]]
            /\ Set(r, <<"note2">> \o Tail(rd[r])) /\ Same
Note2(r) == /\ rd[r][1] = "note2" /\ shared' = [shared EXCEPT ![2] = Ks(t, rd[r][3])[1]]
            /\ Set(r, <<"done">> \o Tail(rd[r])) /\ Same
\* a walk reads a leaf and follows its link; the answer counts the elements
Step(r) ==
    /\ rd[r][1] \in {"walk", "back"} /\ rd[r][3] # 0
    /\ LET i == rd[r][3] IN
       Set(r, <<rd[r][1], rd[r][2], IF rd[r][1] = "walk" THEN Next(t, i) ELSE Prev(t, i), rd[r][4] + Size(t, i)>>)
    /\ UNCHANGED shared /\ Same
Finish(r) ==
    /\ rd[r][1] \in {"walk", "back"} /\ rd[r][3] = 0
    /\ Set(r, <<"walked", 0, 0, rd[r][4]>>)
    /\ UNCHANGED shared /\ Same
Rest(r) == rd[r][1] \in {"done", "walked"} /\ Set(r, Idle) /\ UNCHANGED shared /\ Same

RNext == \E r \in Readers : Begin(r) \/ Down(r) \/ Search(r) \/ Over(r) \/ Note1(r) \/ Note2(r)
                            \/ Step(r) \/ Finish(r) \/ Rest(r)
rvars == <<vars, shared, rd>>
RSpec == RInit /\ [][RNext]_rvars

-----------------------------------------------------------------------------
Answers == \A r \in Readers :
    /\ rd[r][1] = "done" =>
         \E k \in {rd[r][2]} : rd[r][4] = (IF k > 2 * Count(t) THEN 0 ELSE IF k % 2 = 0 THEN k ELSE k + 1)
    /\ rd[r][1] = "walked" => rd[r][4] = Count(t)
\* no step of a reader writes what others read
Silent == [][UNCHANGED <<t, shared>>]_rvars
=============================================================================
