----------------------------- MODULE OMapEvents -----------------------------
(* The meaning of one recorded event <<name, object, arguments and results   *)
(* ...>> as a step of OMap.                                                *)
EXTENDS OMap

OMapEvent(e) ==
    LET op == e[1] o == e[2] IN
       CASE op = "cfg"  -> m' = [x \in Objs |-> Empty] /\ n' = [x \in Objs |-> 0]
                           /\ alive' = [x \in Objs |-> FALSE]
         [] op = "ins"  -> Insert(o, e[3], e[4], e[5], e[6], e[7], e[8])
         [] op = "te"   -> TryEmplace(o, e[3], e[4], e[5], e[6], e[7], e[8], e[9])
         [] op = "ioa"  -> InsertOrAssign(o, e[3], e[4], e[5], e[6], e[7], e[8])
         [] op = "sub"  -> Subscript(o, e[3], e[4], e[5], e[6])
         [] op = "wr"   -> Write(o, e[3], e[4])
         [] op = "fnd"  -> Find(o, e[3], e[4], e[5])
         [] op = "cnt"  -> CountKey(o, e[3], e[4])
         [] op = "at"   -> AtKey(o, e[3], e[4])
         [] op = "lb"   -> LowerBound(o, e[3], e[4], e[5])
         [] op = "ub"   -> UpperBound(o, e[3], e[4], e[5])
         [] op = "er"   -> EqualRange(o, e[3], e[4], e[5])
         [] op = "ek"   -> EraseKey(o, e[3], e[4], e[5])
         [] op = "ep"   -> ErasePos(o, e[3], e[4], e[5], e[6])
         [] op = "erng" -> EraseRange(o, e[3], e[4], e[5], e[6], e[7])
         [] op = "clr"  -> Clear(o, e[3])
         [] op = "cmp"  -> Compare(e[2], e[3], e[4], e[5])
         [] op = "sz"   -> Size(o, e[3], e[4])
         [] op = "tab"  -> Table(o, e[3], e[4], e[5])
         [] op = "scan" -> Scan(o, e[3])
         [] op = "rscan" -> RScan(o, e[3])
         [] op = "walk" -> Walk(o, e[3], e[4], e[5])
         [] op = "rwalk" -> RWalk(o, e[3], e[4], e[5])
         [] op = "new"  -> New(o)
         [] op = "newl" -> NewFrom(o, e[3])
         [] op = "del"  -> Delete(o)
         [] op = "cpy"  -> CopyNew(o, e[3])
         [] op = "mov"  -> MoveNew(o, e[3])
         [] op = "asg"  -> CopyAssign(o, e[3])
         [] op = "masg" -> MoveAssign(o, e[3])
         [] op = "swp"  -> Swap(o, e[3])
         [] op = "fail" -> Failed(o)
         [] op = "failasg" -> AssignFailed(o, e[3])
         [] op = "live" -> Live(e[2])
         [] op = "stores" -> e[3] = 0 /\ e[4] = 0 /\ UNCHANGED omvars   \* readers stored nothing
         [] op = "ok"   -> e[3] = 1 /\ UNCHANGED omvars   \* side condition observed
         [] OTHER -> FALSE                                \* e.g. "crash"
=============================================================================
