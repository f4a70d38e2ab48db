----------------------------- MODULE NodesTrace -----------------------------
(* Validates executions of trees with a recording allocator against Nodes. *)
EXTENDS Nodes, TLC, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

TInit == OMInit /\ NInit /\ l = 1
TNext == /\ l <= N
         /\ l' = l + 1
         /\ \E e \in {Trace[l]} : NodesEvent(e)

TSpec == TInit /\ [][TNext]_<<omvars, nvars, l>>
TView == l
Accepted == TLCGet("stats").diameter - 1 = N
=============================================================================
