------------------------------- MODULE S2Trace -------------------------------
(***************************************************************************)
(* Conformance of the S2 functions (S01).  Positions are recorded as the   *)
(* faces they lie on with their coordinates there.                         *)
(***************************************************************************)
EXTENDS S2Grid, Lanes
G == INSTANCE Geom
RingOf(b) == [k \in 1..4 |-> b[k]]
CellOK(e) ==
  /\ ValidCell(e.cell) /\ Level(e.cell) = e.level
  /\ On(e.pos, e.cell)
  /\ \A k \in DOMAIN e.anc : e.anc[k] = Parent(e.cell, e.lv[k])
  /\ LET ij == IJ(e.cell) l == e.level f == e.cell.f
         x == <<Lo(ij[1], l), Hi(ij[1], l)>> y == <<Lo(ij[2], l), Hi(ij[2], l)>>
         corner == <<<<x[1], y[1]>>, <<x[2], y[1]>>, <<x[2], y[2]>>, <<x[1], y[2]>>>>
         is(k, m) == At(e.bnd[k], f, corner[m][1], corner[m][2])
     IN /\ At(e.centre, f, Mid(ij[1], l), Mid(ij[2], l))
        /\ e.back = e.cell
        \* the four corners, going round in either direction
        /\ Len(e.bnd) = 4
        /\ \E s \in 0..3 : \/ \A k \in 1..4 : is(k, ((k + s) % 4) + 1)
                           \/ \A k \in 1..4 : is(k, ((s - k + 8) % 4) + 1)
        /\ {e.nb[k] : k \in DOMAIN e.nb} = Neighbours(e.cell)
        /\ Len(e.nb) = Cardinality(Neighbours(e.cell))
  /\ e.none = <<0, 0, 0, 0>>
SetOf(s) == {s[k] : k \in DOMAIN s}
CoverOK(e) ==
  LET ids == SetOf(e.ids) IN
  /\ Cardinality(ids) = Len(e.ids)
  /\ SetOf(e.levels) = {e.level}
  /\ \A k \in DOMAIN e.vid : e.vid[k] \in ids
  /\ \A k \in DOMAIN e.qs :
       /\ G!PipRel(<<e.ring>>, e.qs[k]) = G!CONTAIN
       /\ \A s \in G!Edges(e.ring) : LET d == G!SegD2(e.qs[k], s[1], s[2]) IN d[1] >= d[2]
       => e.qid[k] \in ids
  /\ \A k \in DOMAIN e.again : SetOf(e.again[k]) = ids
Allowed(e) == IF e.op = "cell" THEN CellOK(e) ELSE CoverOK(e)
Bad(e) == IF e.op = "cover" /\ ~G!SimpleRing(e.ring) THEN {"PRE"} ELSE IF Allowed(e) THEN {} ELSE {"S01"}
Init == LaneInit(Bad)
Next == LaneNext(Bad)
=============================================================================
