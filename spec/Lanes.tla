------------------------------- MODULE Lanes -------------------------------
(***************************************************************************)
(* The walk of a trace whose events are independent calls: W lanes, so     *)
(* that TLC's workers share the work.  Every event is consumed; the event's*)
(* verdict (the set of properties it contradicts) is printed when it is    *)
(* not empty.  The number of distinct states equals the number of events.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS W
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE pos
Report(n, bad) == bad # {} => PrintT(<<"VERDICT", n, bad>>)
LaneInit(Bad(_)) == /\ pos \in 1..W
                    /\ pos <= Len(Trace)
                    /\ Report(pos, Bad(Trace[pos]))
LaneNext(Bad(_)) == /\ pos + W <= Len(Trace)
                    /\ pos' = pos + W
                    /\ Report(pos', Bad(Trace[pos']))
=============================================================================
