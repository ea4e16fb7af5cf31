----------------------------- MODULE KindsTrace -----------------------------
(***************************************************************************)
(* Conformance of the kinds of geometry (T01): every step of a history     *)
(* names the operation and records the type the value says it has, its     *)
(* content, and what its accessors show.  "kept": the value did not follow *)
(* when the caller changed the list of parts it had passed.                *)
(***************************************************************************)
EXTENDS Kinds, Hist
VARIABLES h, i, kind, v
Init == h \in DOMAIN Trace /\ i = 0 /\ kind = "" /\ v = <<>>
Kind(e) == IF e.do[1] \in {"make", "pois"} THEN e.do[2] ELSE kind
Right(e) == LET w == Do(v, e.do) k == Kind(e) IN
  e.pn = 0 /\ e.type = k /\ e.v = w /\ e.views = Views(k, w) /\ e.kept = 1
Next ==
  /\ i < Len(Trace[h].ev)
  /\ i' = i + 1 /\ h' = h
  /\ LET e == Trace[h].ev[i + 1] IN
     /\ Report(h, i + 1, IF Right(e) THEN {} ELSE {"T01"})
     /\ kind' = Kind(e) /\ v' = Do(v, e.do)
=============================================================================
