------------------------------- MODULE BTree --------------------------------
(***************************************************************************)
(* The tree's algorithms, step by step: descent, leaf split, insertion     *)
(* into parents with recursive splits, erasure with hysteresis, borrowing  *)
(* from either sibling, merging with either sibling, recursive underflow,  *)
(* root growth and root collapse, the maintenance of the separators, the   *)
(* leaf chain and the parent links, and the tracking of the position that  *)
(* erase returns.                                                          *)
(*                                                                         *)
(* Only the relative order of keys matters to these algorithms, so after   *)
(* every call the keys of a tree with c elements are renumbered 2, 4 .. 2c *)
(* and an insertion names one of the gaps 1, 3 .. 2c+1.  A finite model    *)
(* therefore covers every key type and every choice of keys; what bounds   *)
(* it is the number of elements and the capacities of the nodes.           *)
(*                                                                         *)
(* Refinement: every call has the effect OMap gives it (the elements, the  *)
(* position returned), and every state is one that Nodes calls sound.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS LC, IC,       \* capacities of leaves and internal nodes
          MaxN,         \* bound on the number of elements
          MaxId,        \* bound on the number of nodes at one time
          Wrong         \* 0, or the number of a mistake (see below)

(* The mistakes: variants of the algorithms that TLC must refute, which shows *)
(* that the invariants constrain every step of them.                        *)
(*  1 separators not passed up past the parent   2 child of a split parent    *)
(*  3 children of a split node keep their parent   keeps the old parent       *)
(*  4 split forgets prev of the next leaf        5 split forgets rightmost    *)
(*  6 borrowed children keep their parent        7 next not shifted by borrow *)
(*  8 next taken one short after borrowing right 9 merge forgets rightmost    *)
(* 10 merge forgets prev of the next leaf       11 merged node not freed      *)
(* 12 root with one child kept                  13 parent threshold too low   *)
(* 14 new root keeps its parent                 15 erase of the first element *)
(* 16 next in the next leaf forgotten              leaves the separator       *)
(* 17 descent does not step back                18 next not shifted by merge  *)
(* 19 donor of a right borrow keeps separator   20 leaf threshold too low     *)
(* 21 merged children keep their parent         22 split too far right        *)

VARIABLES t,            \* the tree
          ok,           \* did the last call do what OMap says?
          lab           \* what the last call did (not part of the view)
vars == <<t, ok, lab>>

-----------------------------------------------------------------------------
(* Node: <<kind, parent, prev, next, keys, kids>>; kind 0 is a leaf, 1 an    *)
(* internal node over leaves, 2 an internal node over internal nodes; <<>> *)
(* is an id not in use.  A leaf has no kids.                                *)
Kind(x, i) == x.nd[i][1]
Par(x, i)  == x.nd[i][2]
Prev(x, i) == x.nd[i][3]
Next(x, i) == x.nd[i][4]
Ks(x, i)   == x.nd[i][5]
Kids(x, i) == x.nd[i][6]
Size(x, i) == Len(Ks(x, i))
Leaf(x, i) == Kind(x, i) = 0
Cap(x, i)  == IF Leaf(x, i) THEN LC ELSE IC

Free(x) == {i \in 1..MaxId : x.nd[i] = <<>>}
NewId(x) == CHOOSE i \in Free(x) : \A j \in Free(x) : i <= j

SetPar(x, i, p)  == [x EXCEPT !.nd[i][2] = p]
RECURSIVE SetPars(_, _, _)
SetPars(x, is, p) == IF is = <<>> THEN x ELSE SetPars(SetPar(x, Head(is), p), Tail(is), p)
InsAt(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
DelAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Pre(s, c) == SubSeq(s, 1, c)
Suf(s, c) == SubSeq(s, Len(s) - c + 1, Len(s))
Min2(a, b) == IF a < b THEN a ELSE b
Lower(s, k) == Cardinality({j \in 1..Len(s) : s[j] < k}) + 1

\* drivers of the algorithm: half full, and the slack before rebalancing
Half(c) == (c + 1) \div 2
Hyst(c) == Half(c) \div 4
Thresh(c) == Half(c) - Hyst(c)
HalfOf(x, i) == Half(Cap(x, i))

Empty == [nd |-> [i \in 1..MaxId |-> IF i = 1 THEN <<0, 0, 0, 0, <<>>, <<>>>> ELSE <<>>],
          root |-> 1, lm |-> 1, rm |-> 1]

-----------------------------------------------------------------------------
(* Descent *)
RECURSIVE Descend(_, _, _)
Descend(x, i, k) ==
    IF Leaf(x, i) THEN i
    ELSE LET p == Lower(Ks(x, i), k)
             j == IF p > 1 /\ (p > Size(x, i) \/ k < Ks(x, i)[p]) THEN p - 1 ELSE p
         IN Descend(x, Kids(x, i)[IF Wrong = 17 THEN Min2(p, Size(x, i)) ELSE j], k)

\* the separator of child c becomes m, and that of its ancestors as far as c
\* is leftmost
RECURSIVE UpKey(_, _, _)
UpKey(x, c, m) ==
    IF Par(x, c) = 0 THEN x
    ELSE LET p == Par(x, c)
             j == Lower(Ks(x, p), m)
             here == j <= Size(x, p) /\ Kids(x, p)[j] = c
             before == ~here /\ j > 1 /\ Kids(x, p)[j-1] = c /\ Ks(x, p)[j-1] < m
             at == IF here THEN j ELSE j - 1
             y == [x EXCEPT !.nd[p][5][at] = m]
         IN IF ~(here \/ before) THEN x
            ELSE IF at = 1 /\ Wrong # 1 THEN UpKey(y, p, m) ELSE y

-----------------------------------------------------------------------------
(* Insertion.  Results carry the tree, the position of the element and a     *)
(* label saying which steps were taken.                                     *)
RECURSIVE IntoParent(_, _, _, _)
IntoParent(x, l, k, r) ==            \* r follows l; k is its smallest key
    IF Par(x, l) = 0
    THEN LET q == NewId(x)
         IN [x |-> [x EXCEPT !.nd[q] = <<IF Leaf(x, l) THEN 1 ELSE 2, 0, 0, 0, <<Ks(x, l)[1], k>>, <<l, r>>>>,
                             !.nd[l][2] = q, !.nd[r][2] = q, !.root = q],
             lab |-> <<"root">>]
    ELSE LET p == Par(x, l) IN
      IF Size(x, p) < IC
      THEN LET j == Lower(Ks(x, p), k)
           IN [x |-> [x EXCEPT !.nd[p][5] = InsAt(@, j, k), !.nd[p][6] = InsAt(@, j, r), !.nd[r][2] = p],
               lab |-> <<>>]
      ELSE LET q == NewId(x)
               s == IF Wrong = 22 THEN IC - 1 ELSE Half(IC)
               y == [x EXCEPT !.nd[p][5] = Pre(@, s), !.nd[p][6] = Pre(@, s),
                              !.nd[q] = <<Kind(x, p), 0, 0, 0, SubSeq(Ks(x, p), s + 1, IC), SubSeq(Kids(x, p), s + 1, IC)>>]
               z == IF Wrong = 3 THEN y ELSE SetPars(y, Kids(y, q), q)
               up == Ks(z, q)[1]
               to == IF k < up THEN p ELSE q
               j == Lower(Ks(z, to), k)
               w == [z EXCEPT !.nd[to][5] = InsAt(@, j, k), !.nd[to][6] = InsAt(@, j, r), !.nd[r][2] = IF Wrong = 2 THEN p ELSE to]
               more == IntoParent(w, p, up, q)
           IN [x |-> more.x, lab |-> <<IF to = p THEN "splitL" ELSE "splitR">> \o more.lab]

Insert(x, k) ==
    LET f == Descend(x, x.root, k)
        p == Lower(Ks(x, f), k)
    IN IF Size(x, f) < LC
       THEN LET y == [x EXCEPT !.nd[f][5] = InsAt(@, p, k)]
            IN [x |-> IF p = 1 THEN UpKey(y, f, k) ELSE y, at |-> <<f, p>>,
                lab |-> <<"put", IF p = 1 THEN "first" ELSE "in">>]
       ELSE LET q == NewId(x)
                s == Half(LC)
                nx == Next(x, f)
                y == [x EXCEPT !.nd[f][5] = Pre(@, s), !.nd[f][4] = q,
                               !.nd[q] = <<0, 0, f, nx, SubSeq(Ks(x, f), s + 1, LC), <<>>>>,
                               !.rm = IF @ = f /\ Wrong # 5 THEN q ELSE @]
                z == IF nx = 0 \/ Wrong = 4 THEN y ELSE [y EXCEPT !.nd[nx][3] = q]
                up == Ks(z, q)[1]
                to == IF k < up THEN f ELSE q
                j == Lower(Ks(z, to), k)
                w == [z EXCEPT !.nd[to][5] = InsAt(@, j, k)]
                more == IntoParent(w, f, up, q)
            IN [x |-> IF to = f THEN UpKey(more.x, f, Ks(more.x, f)[1]) ELSE more.x,
                at |-> <<to, j>>,
                lab |-> <<"split", IF to = f THEN (IF j = 1 THEN "first" ELSE "left") ELSE "right">> \o more.lab]

-----------------------------------------------------------------------------
(* Erasure.  nx tracks the next element: an index in the node, 0 for the     *)
(* first element of the next leaf, NoNext for none.                        *)
NoNext == 1000
Siblings(x, i) ==       \* <<left, right>>, 0 for none
    LET p == Par(x, i)
        j == Lower(Ks(x, p), Ks(x, i)[1])
        at == IF j <= Size(x, p) /\ Kids(x, p)[j] = i THEN j ELSE j - 1
    IN IF ~(at \in 1..Size(x, p)) \/ Kids(x, p)[at] # i THEN <<0, 0>>      \* lost: shows as a failure
       ELSE <<IF at = 1 THEN 0 ELSE Kids(x, p)[at - 1],
              IF at = Size(x, p) THEN 0 ELSE Kids(x, p)[at + 1]>>
Drop(x, p, c, k) ==     \* remove the entry of child c, found by its smallest key k
    LET j == Lower(Ks(x, p), k)
    IN [x EXCEPT !.nd[p][5] = DelAt(@, j), !.nd[p][6] = DelAt(@, j)]

RECURSIVE Underflow(_, _, _)
\* after a merge: the parent may underflow or, as root, be replaced
AfterMerge(x, p) ==
    IF Par(x, p) # 0 /\ Size(x, p) < Thresh(IC) - (IF Wrong = 13 THEN 1 ELSE 0)
    THEN LET u == Underflow(x, p, NoNext) IN [x |-> u.x, lab |-> u.lab]
    ELSE IF Par(x, p) = 0 /\ Size(x, p) = 1 /\ Wrong # 12
    THEN LET c == Kids(x, p)[1]
         IN [x |-> [x EXCEPT !.nd[c][2] = IF Wrong = 14 THEN @ ELSE 0, !.nd[p] = <<>>, !.root = c], lab |-> <<"collapse">>]
    ELSE [x |-> x, lab |-> <<>>]

\* returns the tree, the node that now holds the elements of i, and the
\* index of the next element in it (0: first of the next leaf)
Underflow(x, i, nx) ==
    LET p == Par(x, i)
        sib == Siblings(x, i)
        l == sib[1]
        r == sib[2]
        want == IF Hyst(Cap(x, i)) > 0 THEN Hyst(Cap(x, i)) ELSE 1
        half == HalfOf(x, i)
        lf == Leaf(x, i)
    IN
    IF l # 0 /\ Size(x, l) > half
    THEN LET b == Min2(want, Size(x, l) - half)
             y == [x EXCEPT !.nd[i][5] = Suf(Ks(x, l), b) \o @, !.nd[i][6] = Suf(Kids(x, l), IF lf THEN 0 ELSE b) \o @,
                            !.nd[l][5] = Pre(@, Len(@) - b), !.nd[l][6] = Pre(@, IF lf THEN 0 ELSE Len(@) - b)]
             z == IF lf \/ Wrong = 6 THEN y ELSE SetPars(y, Pre(Kids(y, i), b), i)
         IN [x |-> UpKey(z, i, Ks(z, i)[1]), node |-> i,
             nx |-> IF nx \in {0, NoNext} \/ Wrong = 7 THEN nx ELSE nx + b, lab |-> <<"borrowL">>]
    ELSE IF r # 0 /\ Size(x, r) > half
    THEN LET b == Min2(want, Size(x, r) - half)
             old == Size(x, i)
             y == [x EXCEPT !.nd[i][5] = @ \o Pre(Ks(x, r), b), !.nd[i][6] = @ \o Pre(Kids(x, r), IF lf THEN 0 ELSE b),
                            !.nd[r][5] = Suf(@, Len(@) - b), !.nd[r][6] = Suf(@, IF lf THEN 0 ELSE Len(@) - b)]
             z == IF lf THEN y ELSE SetPars(y, Suf(Kids(y, i), b), i)
         IN [x |-> IF Wrong = 19 THEN z ELSE UpKey(z, r, Ks(z, r)[1]), node |-> i,
             nx |-> IF nx = 0 THEN (IF Wrong = 8 THEN old ELSE old + 1) ELSE nx, lab |-> <<"borrowR">>]
    ELSE IF l # 0
    THEN LET old == Size(x, l)
             y == Drop(x, p, i, Ks(x, i)[1])
             ks == Ks(x, i)
             cs == Kids(x, i)
             z == SetPars([y EXCEPT !.nd[l][5] = @ \o ks, !.nd[l][6] = @ \o cs,
                                    !.nd[l][4] = Next(x, i), !.nd[i] = IF Wrong = 11 THEN @ ELSE <<>>,
                                    !.rm = IF @ = i /\ Wrong # 9 THEN l ELSE @],
                          IF Wrong = 21 THEN <<>> ELSE cs, l)
             w == IF lf /\ Next(x, i) # 0 /\ Wrong # 10 THEN [z EXCEPT !.nd[Next(x, i)][3] = l] ELSE z
             more == AfterMerge(w, p)
         IN [x |-> more.x, node |-> l,
             nx |-> IF nx \in {0, NoNext} \/ Wrong = 18 THEN nx ELSE old + nx, lab |-> <<"mergeL">> \o more.lab]
    ELSE LET old == Size(x, i)
             y == Drop(x, p, r, Ks(x, r)[1])
             ks == Ks(x, r)
             cs == Kids(x, r)
             z == SetPars([y EXCEPT !.nd[i][5] = @ \o ks, !.nd[i][6] = @ \o cs,
                                    !.nd[i][4] = Next(x, r), !.nd[r] = <<>>,
                                    !.rm = IF @ = r THEN i ELSE @], cs, i)
             w == IF lf /\ Next(x, r) # 0 THEN [z EXCEPT !.nd[Next(x, r)][3] = i] ELSE z
             more == AfterMerge(w, p)
         IN [x |-> more.x, node |-> i,
             nx |-> IF nx = 0 THEN old + 1 ELSE nx, lab |-> <<"mergeR">> \o more.lab]

\* the position a result denotes: <<leaf, index>>, <<0, 0>> for the end
Where(x, i, nx) ==
    IF nx \in 1..Size(x, i) THEN <<i, nx>>
    ELSE IF Next(x, i) = 0 THEN <<0, 0>> ELSE <<Next(x, i), 1>>

Erase(x, f, p) ==          \* the element at index p of leaf f
    LET y == [x EXCEPT !.nd[f][5] = DelAt(@, p)]
        sz == Size(y, f)
        place == IF p = 1 THEN "first" ELSE IF p = sz + 1 THEN "last" ELSE "mid"
    IN IF Par(x, f) = 0
       THEN [x |-> y, at |-> Where(y, f, p), lab |-> <<"cut", "root", place>>]
       ELSE LET z == IF p = 1 /\ sz > 0 /\ Wrong # 15 THEN UpKey(y, f, Ks(y, f)[1]) ELSE y
                nx == IF p <= sz THEN p ELSE IF Next(y, f) # 0 /\ Wrong # 16 THEN 0 ELSE NoNext
            IN IF sz = 0 \/ sz < Thresh(LC) - (IF Wrong = 20 THEN 1 ELSE 0)
               THEN LET u == Underflow(z, f, nx)
                    IN [x |-> u.x, at |-> Where(u.x, u.node, u.nx),
                        lab |-> <<"cut", IF Next(y, f) = 0 THEN "tail" ELSE "body", place>> \o u.lab]
               ELSE [x |-> z, at |-> Where(z, f, p),
                     lab |-> <<"cut", "easy", place>>]

-----------------------------------------------------------------------------
(* What the tree means *)
RECURSIVE LeavesFrom(_, _, _), Flat(_, _), SubLeaves(_, _), Deep(_, _)
LeavesFrom(x, i, left) == IF i = 0 \/ left = 0 THEN <<>> ELSE <<i>> \o LeavesFrom(x, Next(x, i), left - 1)
Flat(x, is) == IF is = <<>> THEN <<>> ELSE Ks(x, Head(is)) \o Flat(x, Tail(is))
Chain(x) == LeavesFrom(x, x.lm, MaxId)
Elems(x) == Flat(x, Chain(x))              \* what iteration sees
SubLeaves(x, is) ==                        \* leaves below the nodes is, in order
    IF is = <<>> THEN <<>>
    ELSE (IF Leaf(x, Head(is)) THEN <<Head(is)>> ELSE SubLeaves(x, Kids(x, Head(is)))) \o SubLeaves(x, Tail(is))
Deep(x, i) == IF Leaf(x, i) THEN 1 ELSE 1 + Deep(x, Kids(x, i)[1])

Used(x) == {i \in 1..MaxId : x.nd[i] # <<>>}
RECURSIVE Below(_, _)
Below(x, i) == {i} \cup (IF Leaf(x, i) THEN {} ELSE UNION {Below(x, Kids(x, i)[j]) : j \in 1..Len(Kids(x, i))})
RECURSIVE Least(_, _)
Least(x, i) == IF Leaf(x, i) THEN Ks(x, i)[1] ELSE Least(x, Kids(x, i)[1])

Sound(x) ==
    LET ch == Chain(x) IN
    /\ Par(x, x.root) = 0
    /\ Below(x, x.root) = Used(x)                              \* no node is lost or freed early
    /\ SubLeaves(x, <<x.root>>) = ch                           \* the chain is the leaves, in order
    /\ x.rm = ch[Len(ch)]
    /\ \A j \in 1..Len(ch) : Prev(x, ch[j]) = IF j = 1 THEN 0 ELSE ch[j-1]
    /\ \A i \in Used(x) :
         /\ Size(x, i) <= Cap(x, i)
         /\ i # x.root => 8 * Size(x, i) >= 3 * Cap(x, i)
         /\ \A j \in 2..Size(x, i) : Ks(x, i)[j-1] < Ks(x, i)[j]
         /\ ~Leaf(x, i) =>
              /\ Len(Kids(x, i)) = Size(x, i) /\ Size(x, i) >= 2
              /\ \A j \in 1..Size(x, i) : \E c \in {Kids(x, i)[j]} :
                   /\ Par(x, c) = i
                   /\ Leaf(x, c) = (Kind(x, i) = 1)
                   /\ Deep(x, c) = Deep(x, Kids(x, i)[1])
                   /\ Least(x, c) = Ks(x, i)[j]

\* shape: nested sizes, with every other fact about the state summed up by Sound
RECURSIVE Nest(_, _)
Nest(x, i) == IF Leaf(x, i) THEN Size(x, i) ELSE [j \in 1..Len(Kids(x, i)) |-> Nest(x, Kids(x, i)[j])]

\* renumber the keys 2, 4, .. after an insertion into gap g (key 2g-1) or the
\* erasure of the g-th element (key 2g, which must be gone)
AfterIns(g, k) == IF k = 2 * g - 1 THEN 2 * g ELSE IF k < 2 * g THEN k ELSE k + 2
AfterDel(g, k) == IF k = 2 * g THEN 2 * g - 1 ELSE IF k < 2 * g THEN k ELSE k - 2
Renum(x, g, F(_, _)) ==
    [x EXCEPT !.nd = [i \in 1..MaxId |->
        IF x.nd[i] = <<>> THEN <<>> ELSE [x.nd[i] EXCEPT ![5] = [j \in 1..Len(@) |-> F(g, @[j])]]]]

Evens(c) == [j \in 1..c |-> 2 * j]

-----------------------------------------------------------------------------
Init == t = Empty /\ ok = TRUE /\ lab = <<>>

Ins(g) ==                   \* insert into gap g
    \E el \in {Elems(t)} : \E k \in {2 * g - 1} : \E r \in {Insert(t, k)} :
    /\ Len(el) < MaxN
    /\ ok' = IF /\ Elems(r.x) = InsAt(el, g, k)
                /\ Ks(r.x, r.at[1])[r.at[2]] = k
             THEN TRUE ELSE FALSE
    /\ t' = Renum(r.x, g, AfterIns)
    /\ lab' = r.lab

Del(g) ==                   \* erase the g-th element
    \E el \in {Elems(t)} : \E f \in {Descend(t, t.root, 2 * g)} : \E p \in {Lower(Ks(t, f), 2 * g)} :
    \E r \in {Erase(t, f, p)} :
    /\ ok' = IF /\ p <= Size(t, f) /\ Ks(t, f)[p] = 2 * g              \* find() finds it
                /\ Elems(r.x) = DelAt(el, g)
                /\ IF g = Len(el) THEN r.at = <<0, 0>>
                   ELSE r.at[1] # 0 /\ r.at[2] <= Size(r.x, r.at[1]) /\ Ks(r.x, r.at[1])[r.at[2]] = 2 * g + 2
             THEN TRUE ELSE FALSE
    /\ t' = Renum(r.x, g, AfterDel)
    /\ lab' = r.lab

Count(x) == Len(Elems(x))
Next_ == \/ \E g \in 1..(Count(t) + 1) : Ins(g)
         \/ \E g \in 1..Count(t) : Del(g)
Spec == Init /\ [][Next_]_vars

-----------------------------------------------------------------------------
TypeOK == Elems(t) = Evens(Count(t))
Refines == ok
Soundness == Sound(t)
\* descents for present and absent keys end in the leaf that holds or would
\* hold them, so that lower_bound there is the true neighbour
Searches ==
    \E el \in {Elems(t)} : \A k \in 1..(2 * Len(el) + 1) :
      \E f \in {Descend(t, t.root, k)} : \E p \in {Lower(Ks(t, f), k)} :
        \E w \in {Where(t, f, p)} :
        IF k > 2 * Len(el) THEN w = <<0, 0>> ELSE Ks(t, w[1])[w[2]] = (IF k % 2 = 0 THEN k ELSE k + 1)
View == <<Nest(t, t.root), TypeOK, ok, Sound(t)>>
Bound == Count(t) <= MaxN
=============================================================================
