----------------------------- MODULE OffsetTrace -----------------------------
(***************************************************************************)
(* Conformance of the offset conversions (U02).  Round-trip errors are     *)
(* recorded in 1e-9 degree, offsets in 1e-7 degree.                        *)
(***************************************************************************)
EXTENDS Offset, Lanes
SmoothW == 400  SmoothB == 1400
Small(v, t) == Abs(v[1]) <= t /\ Abs(v[2]) <= t
\* one conversion and its undoing: w = 1 when unchanged to the bit
Leg(ins, l) ==
  IF ~ins THEN l.same = 1
  ELSE /\ l.same = 0
       /\ Small(l.off, 200000) /\ (l.off[1] \div 10) * (l.off[1] \div 10) + (l.off[2] \div 10) * (l.off[2] \div 10) < 400000000
       /\ Inside(l.at[1], l.at[2]) => Small(l.back, 100000)
ConvOK(e) ==
  LET ins == Inside(e.lon, e.lat) IN
  /\ Leg(ins, e.wg) /\ Leg(ins, e.gw)
  /\ Small(e.bd, 10000) /\ Small(e.db, 10000)
  /\ Small(e.wb, 0) /\ Small(e.bw, 0)
  \* the offsets are smooth: from a place to one close by they change by little
  /\ ins /\ Inside(e.near[1], e.near[2]) =>
       /\ Small(<<e.wg.off[1] - e.nwg[1], e.wg.off[2] - e.nwg[2]>>, SmoothW)
       /\ Small(<<e.gw.off[1] - e.ngw[1], e.gw.off[2] - e.ngw[2]>>, SmoothW)
       /\ Small(<<e.gb[1] - e.ngb[1], e.gb[2] - e.ngb[2]>>, SmoothB)
  /\ e.row > 0 => LET r == Table[e.row] IN
                  /\ Small(<<e.wg.off[1] - r[3], e.wg.off[2] - r[4]>>, 2)
                  /\ Small(<<e.gb[1] - r[5], e.gb[2] - r[6]>>, 2)
Bad(e) == IF ConvOK(e) THEN {} ELSE {"U02"}
Init == LaneInit(Bad)
Next == LaneNext(Bad)
=============================================================================
