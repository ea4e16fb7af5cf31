----------------------------- MODULE ShapesTrace -----------------------------
(***************************************************************************)
(* Conformance of distances to shapes in the GPS system (D02).  Distances  *)
(* are in centimetres; a value that is no number, or out of range, is      *)
(* recorded as 2147000000.  Where the unit u of the grid is a whole number *)
(* of millidegrees, the distances between grid positions are judged by the *)
(* sphere itself (S!...), not only against each other.                     *)
(***************************************************************************)
EXTENDS Shapes, Lanes
S == INSTANCE Sphere
BadNum == 2147000000
Num(v) == v # BadNum /\ v >= 0
IsRat(r) == r[2] # 0
PosM(e, p) == <<p[1] * e.u + e.o[1] * 1000, p[2] * e.u + e.o[2] * 1000>>
Arc(e, p, q, cm) ==
  e.u > 0 => LET a == PosM(e, p) b == PosM(e, q) x == S!ExactArc(a, b) IN
             /\ x >= 0 => Abs(cm - S!ArcCm(x)) <= 30
             /\ S!CosineRule(a, b, cm)
FootIs(f, foot) == /\ IsRat(f[1]) /\ f[1][1] * foot[3] = foot[1] * f[1][2]
                   /\ IsRat(f[2]) /\ f[2][1] * foot[3] = foot[2] * f[2][2]
\* d: reported, dq: great-circle distance to the reported point
SegOK(e) ==
  LET ft == SegFoot(e.p, e.a, e.b) IN
  /\ Num(e.d) /\ Same(e.d, e.dq) /\ FootIs(e.foot, ft)
  /\ REq(SegD2(e.p, e.a, e.b), <<0, 1>>) => e.d = 0
  /\ ft[1] % ft[3] = 0 /\ ft[2] % ft[3] = 0 => Arc(e, e.p, <<ft[1] \div ft[3], ft[2] \div ft[3]>>, e.d)
  /\ e.a # e.b =>
       LET D == D2(e.a, e.b) u == Dot(e.a, e.b, e.p) IN
       /\ Num(e.ld) /\ Same(e.ld, e.ldq) /\ IsRat(e.lu) /\ REq(e.lu, <<u, D>>)
       /\ FootIs(e.lfoot, <<e.a[1] * D + u * (e.b[1] - e.a[1]), e.a[2] * D + u * (e.b[2] - e.a[2]), D>>)
PolyOK(e) == \A k \in DOMAIN e.qs : /\ Num(e.ds[k])
                                    /\ Len(e.es[k]) = SumSeq([r \in DOMAIN e.poly |-> Len(e.poly[r]) - 1])
                                    /\ Same(e.ds[k], ToPoly(e.poly, e.qs[k], e.es[k]))
HitOK(e) ==
  LET near == LeastOf(Rng(e.es)) IN
  /\ Num(e.d) /\ Len(e.es) = Len(e.l) - 1 /\ Same(e.d, near) /\ Same(e.d, e.dq)
  /\ e.i \in DOMAIN e.es /\ Same(e.es[e.i], near)
  /\ FootIs(e.foot, SegFoot(e.p, e.l[e.i], e.l[e.i + 1]))
HausOK(e) == /\ Num(e.h) /\ Same(e.h, Hausdorff(e.t)) /\ Same(e.hb, e.h)
             /\ \A i \in DOMAIN e.l : \A j \in DOMAIN e.k : Arc(e, e.l[i], e.k[j], e.t[i][j])
ThinOK(e) == IsThinned(e.l, e.t, e.th, e.r)
Allowed(e) == CASE e.op = "seg" -> SegOK(e) [] e.op = "poly" -> PolyOK(e) [] e.op = "hit" -> HitOK(e)
              [] e.op = "haus" -> HausOK(e) [] OTHER -> ThinOK(e)
Bad(e) == IF e.op = "poly" /\ \E k \in DOMAIN e.poly : ~SimpleRing(e.poly[k]) THEN {"PRE"}
          ELSE IF e.pn = 1 \/ ~Allowed(e) THEN {"D02"} ELSE {}
Init == LaneInit(Bad)
Next == LaneNext(Bad)
=============================================================================
