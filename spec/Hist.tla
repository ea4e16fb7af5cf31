-------------------------------- MODULE Hist --------------------------------
(***************************************************************************)
(* The walk of a trace of histories: line h of the trace is one history,   *)
(* replayed from its own initial state; TLC's workers take histories in    *)
(* parallel.  Distinct states = events + histories when everything was     *)
(* consumed.  A verdict names the history, the step and the contradicted   *)
(* properties.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(h, n, bad) == bad # {} => PrintT(<<"VERDICT", h, n, bad>>)
=============================================================================
