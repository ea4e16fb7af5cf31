---------------------------- MODULE GeohashTrace ----------------------------
(***************************************************************************)
(* Conformance of the geohash functions (H01).  An event is a position     *)
(* (column, row) and what the library said for it at one precision; grid   *)
(* lines are recorded in columns and rows, -1 for "not a grid line".       *)
(***************************************************************************)
EXTENDS Geohash, Lanes
\* middle of a range of grid lines, as <<line, half>>
Mid(a, b) == IF b - a = 1 THEN <<a, 1>> ELSE <<a + (b - a) \div 2, 0>>
H01OK(e) ==
  LET c == Cell(e.i, e.j, e.p) IN
  /\ e.hash = Hash(e.i, e.j, e.p)
  /\ e.bnd = c
  /\ e.cx = Mid(c[1], c[3]) /\ e.cy = Mid(c[2], c[4])
  /\ e.back = e.hash
  /\ e.inside = 1
  /\ \A k \in DOMAIN e.corner : e.corner[k] = e.hash
  /\ InnerRow(e.j, e.p) => e.nb = Neighbours(e.i, e.j, e.p)
Bad(e) == IF H01OK(e) THEN {} ELSE {"H01"}
Init == LaneInit(Bad)
Next == LaneNext(Bad)
=============================================================================
