----------------------------- MODULE OMapTrace ------------------------------
(* Validates executions recorded from the real containers against OMap.    *)
EXTENDS OMapEvents, TLC, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

TInit == OMInit /\ l = 1
TNext == /\ l <= N
         /\ l' = l + 1
         /\ \E e \in {Trace[l]} : OMapEvent(e)

TSpec == TInit /\ [][TNext]_<<omvars, l>>
TView == l
Accepted == TLCGet("stats").diameter - 1 = N
=============================================================================
