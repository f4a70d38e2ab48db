------------------------------- MODULE Nodes --------------------------------
(***************************************************************************)
(* The memory side of the trees: every node obtained from an allocator and *)
(* the shape the nodes form.  Coupled to OMap: the shape of each tree must *)
(* represent exactly the map the tree stands for.                          *)
(*                                                                         *)
(* Node kinds: 1 leaf node, 2 internal node, 3 anything else a container   *)
(* obtains from its allocator.                                             *)
(***************************************************************************)
EXTENDS OMapEvents

VARIABLES node,     \* node[id] = <<allocator, kind, count>> of block id; <<>> when it has been
                    \* returned (the id may then name a new block)
          held,     \* <<leaf nodes, internal nodes>> obtained and not returned
          caps      \* <<leaf capacity, internal capacity, comparisons per node>>

nvars == <<node, held, caps>>

NInit == node = <<>> /\ held = <<0, 0>> /\ caps = <<8, 8, 0>>

Cfg(L, I, M) == caps' = <<L, I, M>> /\ node' = <<>> /\ held' = <<0, 0>>

Hold(kind, d) == held' = IF kind \in {1, 2} THEN [held EXCEPT ![kind] = @ + d] ELSE held
Held == {i \in DOMAIN node : node[i] # <<>>}

\* A block is obtained ...
Obtain(id, a, kind, cnt) ==
    /\ cnt >= 1
    /\ kind \in {1, 2} => cnt = 1
    /\ \/ id = Len(node) + 1 /\ node' = Append(node, <<a, kind, cnt>>)
       \/ id \in DOMAIN node /\ node[id] = <<>> /\ node' = [node EXCEPT ![id] = <<a, kind, cnt>>]
    /\ Hold(kind, 1)
    /\ UNCHANGED caps
\* ... and returned once, with the same type and count, to an equal
\* allocator, when no object is left in it.
Return(id, a, kind, cnt, left) ==
    /\ id \in DOMAIN node
    /\ node[id] = <<a, kind, cnt>>
    /\ left = 0
    /\ node' = [node EXCEPT ![id] = <<>>]
    /\ Hold(kind, -1)
    /\ UNCHANGED caps

-----------------------------------------------------------------------------
(* Bounds that follow from the fill guarantee: every node but a root holds   *)
(* at least 3/8 of its capacity.                                           *)
Ceil(a, b) == (a + b - 1) \div b
MinLeaf == Ceil(3 * caps[1], 8)
MinInt  == Ceil(3 * caps[2], 8)
Max2(a, b) == IF a > b THEN a ELSE b

MaxLeaves(c) == Max2(1, c \div MinLeaf)
RECURSIVE MaxInner(_)
MaxInner(k) == IF k < 2 THEN 0 ELSE LET j == Max2(1, k \div MinInt) IN j + MaxInner(j)
RECURSIVE Levels(_)
Levels(k) == IF k < 2 THEN 0 ELSE 1 + Levels(k \div MinInt)
\* largest number of levels of a tree with c elements
MaxLevels(c) == 1 + Levels(MaxLeaves(c))

RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE f[i] + Sum(f, i - 1)
NodesBound ==      \* evaluated between calls
    /\ held[1] <= Sum([o \in Objs |-> IF alive[o] THEN MaxLeaves(n[o]) ELSE 0], NO)
    /\ held[2] <= Sum([o \in Objs |-> IF alive[o] THEN MaxInner(MaxLeaves(n[o])) ELSE 0], NO)

\* comparator calls of one lookup; caps[3] is what the search mode may spend
\* on one node (a function of its capacity)
RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2(Ceil(x, 2))
PerNode(cap) == IF caps[3] = 0 THEN Log2(cap + 1) + 4 ELSE cap + 4
Cost(o, calls) ==
    /\ alive[o]
    /\ calls <= 2 * ((MaxLevels(n[o]) - 1) * PerNode(caps[2]) + PerNode(caps[1]))

-----------------------------------------------------------------------------
(* Shapes.  nd[i] = <<id, kind, parent, prev, next, keys, targets>> where    *)
(* kind is 0 for a leaf, 1 for an internal node over leaves, 2 for one over  *)
(* internal nodes; parent, prev, next and the targets of internal nodes are  *)
(* positions in nd (0 for none); the targets of a leaf are payloads.         *)
Kind(nd, i) == nd[i][2]
Up(nd, i) == nd[i][3]
Ks(nd, i) == nd[i][6]
Ts(nd, i) == nd[i][7]

RECURSIVE Height(_, _), MinKey(_, _), MaxKey(_, _), LeavesOf(_, _)
Height(nd, i) == IF Kind(nd, i) = 0 THEN 1 ELSE 1 + Height(nd, Ts(nd, i)[1])
MinKey(nd, i) == IF Kind(nd, i) = 0 THEN Ks(nd, i)[1] ELSE MinKey(nd, Ts(nd, i)[1])
MaxKey(nd, i) == IF Kind(nd, i) = 0 THEN Ks(nd, i)[Len(Ks(nd, i))]
                 ELSE MaxKey(nd, Ts(nd, i)[Len(Ts(nd, i))])
LeavesOf(nd, i) ==
    IF Kind(nd, i) = 0 THEN <<i>>
    ELSE LET t == Ts(nd, i)
             RECURSIVE Cat(_)
             Cat(j) == IF j = 0 THEN <<>> ELSE Cat(j - 1) \o LeavesOf(nd, t[j])
         IN Cat(Len(t))

\* every node is sound by itself and with respect to its children
NodeOK(nd, i) ==
    \E k \in {Ks(nd, i)}, t \in {Ts(nd, i)} :
    LET sz == Len(k) root == Up(nd, i) = 0
        cap == IF Kind(nd, i) = 0 THEN caps[1] ELSE caps[2]
    IN /\ Len(t) = sz /\ sz <= cap
       /\ ~root => 8 * sz >= 3 * cap
       /\ \A j \in 2..sz : k[j-1] < k[j]
       /\ Kind(nd, i) # 0 =>
            /\ sz >= 2
            /\ \A j \in 1..sz :
                 /\ t[j] \in 1..Len(nd)
                 /\ Up(nd, t[j]) = i
                 /\ (Kind(nd, t[j]) = 0) = (Kind(nd, i) = 1)
                 /\ Ks(nd, t[j]) # <<>>
       /\ ~root => /\ Up(nd, i) \in 1..Len(nd)
                   /\ Kind(nd, Up(nd, i)) # 0
                   /\ \E j \in DOMAIN Ts(nd, Up(nd, i)) : Ts(nd, Up(nd, i))[j] = i
\* lookups for a key are led to the leaf that holds it or would hold it
Routes(nd, i) ==
    Kind(nd, i) # 0 =>
      \E k \in {Ks(nd, i)}, t \in {Ts(nd, i)} : \A j \in 2..Len(k) : MaxKey(nd, t[j-1]) < k[j] /\ k[j] <= MinKey(nd, t[j])

\* the tree with root r represents map f with c elements
Represents(nd, r, f, c) ==
    \E lv \in {LeavesOf(nd, r)} :     \* (bound by \E so that TLC evaluates it once)
      LET nl == Len(lv)
          RECURSIVE Cum(_)     \* elements in leaves 1..j
          Cum(j) == IF j = 0 THEN 0 ELSE Cum(j - 1) + Len(Ks(nd, lv[j]))
      IN /\ Up(nd, r) = 0
         /\ \A j \in 1..nl : \E x \in {lv[j]}, ks \in {Ks(nd, lv[j])}, ps \in {Ts(nd, lv[j])} :
            /\ nd[x][4] = (IF j = 1 THEN 0 ELSE lv[j-1])
            /\ nd[x][5] = (IF j = nl THEN 0 ELSE lv[j+1])
            /\ \A h \in 1..Len(ks) : ks[h] \in Keys /\ f[ks[h]] = ps[h]
            /\ j > 1 => MaxKey(nd, lv[j-1]) < ks[1]
         /\ Cum(nl) = c

\* roots: <<o, position of the root of tree o>> for each non-empty tree
Shape(roots, nd, f) ==
    LET tree == {i \in 1..Len(nd) : TRUE}
        top == {i \in tree : Up(nd, i) = 0}
        named == {roots[j][2] : j \in 1..Len(roots)}
        empties == {o \in Objs : alive[o] /\ n[o] = 0}
    IN /\ {nd[i][1] : i \in tree} = {i \in Held : node[i][2] # 3}
       /\ {roots[j][1] : j \in 1..Len(roots)} = {o \in Objs : alive[o] /\ n[o] # 0}
       /\ named \subseteq top /\ Cardinality(named) = Len(roots)
       /\ \A i \in tree : NodeOK(nd, i)
       /\ \A i \in tree : Routes(nd, i)
       /\ \A i \in tree : Kind(nd, i) # 0 =>
            \A j \in 1..Len(Ts(nd, i)) : Height(nd, Ts(nd, i)[j]) = Height(nd, Ts(nd, i)[1])
       /\ \A j \in 1..Len(roots) :
            Represents(nd, roots[j][2], f[roots[j][1]], n[roots[j][1]])
       \* what is left are the roots of empty trees
       /\ Cardinality(top \ named) <= Cardinality(empties)
       /\ \A i \in top \ named : Kind(nd, i) = 0 /\ Ks(nd, i) = <<>>

-----------------------------------------------------------------------------
(* Capacities nobody chose: the multiple of eight nearest to what fits a leaf *)
(* of 2048 bytes (key and value per entry) or an inner node of 1024 bytes     *)
(* (key and pointer per entry), within 8..64 and 16..64.                      *)
NearestEight(x, lo, hi) ==
  LET c == {b \in lo..hi : b % 8 = 0}
      dist(b) == IF b > x THEN b - x ELSE x - b
      best == {b \in c : \A a \in c : dist(b) <= dist(a)}
  IN  CHOOSE b \in best : \A a \in best : a <= b
Defaults(rows) ==       \* <<key bytes, value bytes, pointer bytes, leaf, inner>>
  \A i \in DOMAIN rows :
    LET r == rows[i] IN
    /\ r[4] = NearestEight(2048 \div (r[1] + r[2]), 8, 64)
    /\ r[5] = NearestEight(1024 \div (r[1] + r[3]), 16, 64)

------------------------------------------------------------------------------
NodesEvent(e) ==
    LET op == e[1] IN
    CASE op = "cfg"   -> OMapEvent(e) /\ Cfg(e[3], e[4], e[5])
      [] op = "na"    -> Obtain(e[2], e[3], e[4], e[5]) /\ UNCHANGED omvars
      [] op = "nf"    -> Return(e[2], e[3], e[4], e[5], e[6]) /\ UNCHANGED omvars
      [] op = "shape" -> (\E roots \in {e[2]}, nd \in {e[3]}, f \in {m} : Shape(roots, nd, f)) /\ UNCHANGED <<omvars, nvars>>
      [] op = "cost"  -> Cost(e[2], e[4]) /\ UNCHANGED <<omvars, nvars>>
      [] op = "dcap"  -> (IF Defaults(e[2]) THEN TRUE ELSE FALSE) /\ UNCHANGED <<omvars, nvars>>
      [] op = "none"  -> Held = {} /\ UNCHANGED <<omvars, nvars>>
      [] OTHER        -> OMapEvent(e) /\ UNCHANGED nvars /\ NodesBound'
=============================================================================
