----------------------------- MODULE DMapTrace ------------------------------
(* Validates executions recorded from real dense_maps against DMap.        *)
EXTENDS DMap, TLC, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

TInit == DInit /\ l = 1
TNext ==
    /\ l <= N
    /\ l' = l + 1
    /\ LET e == Trace[l] op == e[1] o == e[2] IN
       CASE op = "cfg"  -> /\ m' = [x \in Objs |-> Empty]
                           /\ n' = [x \in Objs |-> 0]
                           /\ alive' = [x \in Objs |-> FALSE]
                           /\ cap' = [x \in Objs |-> 0]
         [] op = "new"  -> DNew(o, e[3])
         [] op = "del"  -> DDelete(o)
         [] op = "ins"  -> DInsert(o, e[3], e[4], e[5], e[6], e[7], e[8], e[9])
         [] op = "inh"  -> DInsertHint(o, e[3], e[4], e[5], e[6], e[7], e[8], e[9])
         [] op = "te"   -> DTryEmplace(o, e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10])
         [] op = "ioa"  -> DInsertOrAssign(o, e[3], e[4], e[5], e[6], e[7], e[8], e[9])
         [] op = "sub"  -> DSubscript(o, e[3], e[4], e[5], e[6])
         [] op = "wr"   -> DWrite(o, e[3], e[4])
         [] op = "upk"  -> DUpdateKey(o, e[3], e[4], e[5], e[6])
         [] op = "fnd"  -> DFind(o, e[3], e[4], e[5], e[6])
         [] op = "lb"   -> DLower(o, e[3], e[4], e[5], e[6])
         [] op = "ub"   -> DUpper(o, e[3], e[4], e[5], e[6])
         [] op = "ek"   -> DEraseKey(o, e[3], e[4], e[5])
         [] op = "ep"   -> DErasePos(o, e[3], e[4], e[5], e[6], e[7])
         [] op = "clr"  -> DClear(o, e[3])
         [] op = "sz"   -> DSize(o, e[3], e[4], e[5], e[6])
         [] op = "tab"  -> DTable(o, e[3], e[4], e[5])
         [] op = "scan" -> Scan(o, e[3]) /\ Keep
         [] op = "rscan" -> RScan(o, e[3]) /\ Keep
         [] op = "ra"   -> DRandom(o, e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10])
         [] op = "rs"   -> DStepIt(o, e[3], e[4], e[5], e[6], e[7], e[8], e[9])
         [] op = "spl"  -> DSplit(o, e[3], e[4], e[5], e[6], e[7])
         [] op = "pre"  -> DPrefix(o, e[3], e[4], e[5], e[6], e[7])
         [] op = "suf"  -> DSuffix(o, e[3], e[4], e[5], e[6], e[7])
         [] op = "cpy"  -> DCopyNew(o, e[3])
         [] op = "mov"  -> DMoveNew(o, e[3])
         [] op = "asg"  -> DCopyAssign(o, e[3])
         [] op = "masg" -> DMoveAssign(o, e[3])
         [] op = "live" -> Live(e[2]) /\ Keep
         [] op = "fail" -> Failed(o) /\ Keep
         [] op = "failasg" -> AssignFailed(o, e[3]) /\ Keep
         [] op = "stores" -> e[3] = 0 /\ e[4] = 0 /\ Same   \* readers stored nothing
         [] op = "ok"   -> e[3] = 1 /\ Same
         [] OTHER -> FALSE

TSpec == TInit /\ [][TNext]_<<dmvars, l>>
TView == l
Accepted == TLCGet("stats").diameter - 1 = N
=============================================================================
