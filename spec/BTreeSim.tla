------------------------------ MODULE BTreeSim ------------------------------
(* Long random histories of BTree at the capacities of the real trees,      *)
(* steered so that leaves and internal nodes split, borrow and merge in all *)
(* their ways; each call and the steps it took are printed, and the         *)
(* histories are replayed on the real code.                                 *)
EXTENDS BTree

VARIABLES mode,     \* <<drift, pattern, place, calls left>>
          turn
R(a, b) == RandomElement(a..b)
NewMode(c) == <<R(0, 4), R(1, 5), R(1, c + 1), R(4, 60)>>

SInit == Init /\ mode = <<4, 1, 1, 40>> /\ turn = 0

Spot(md, c) ==      \* 1..c
    LET q == CASE md[2] = 1 -> R(1, c)
               [] md[2] = 2 -> R(1, 2)
               [] md[2] = 3 -> c
               [] md[2] = 4 -> md[3]
               [] OTHER -> md[3] + R(0, 6)
    IN IF q > c THEN c ELSE q

SNext ==
    \E c \in {Count(t)} :
    \E md \in {IF mode[4] = 0 THEN NewMode(c) ELSE [mode EXCEPT ![4] = @ - 1]} :
    \E dice \in {R(1, 8)} :
    \E ins \in {IF c = 0 THEN TRUE ELSE IF c >= MaxN THEN FALSE ELSE dice <= 2 * md[1]} :
    \E g \in {Spot(md, IF ins THEN c + 1 ELSE c)} :
      /\ IF ins THEN Ins(g) ELSE Del(g)
      /\ mode' = md
      /\ turn' = turn + 1
      /\ PrintT(<<"step", turn, IF ins THEN 1 ELSE 0, g, c, lab', Deep(t, t.root)>>)
SSpec == SInit /\ [][SNext]_<<vars, mode, turn>>
SSound == turn % 8 = 0 => Sound(t) /\ TypeOK
=============================================================================
