----------------------------- MODULE PlaneTrace -----------------------------
(***************************************************************************)
(* Conformance of the planar calculations (G01-G08, G10, G11, V01): each   *)
(* recorded call must be one that the exact integer geometry of Geom       *)
(* allows.  Codes of relations are the library's.                          *)
(***************************************************************************)
EXTENDS Simplify, Lanes

Off == 999999
Bool(b) == IF b THEN 1 ELSE 0
IsRat(r) == r[2] # 0

(*----------------------------------- G01 ----------------------------------*)
BoxGeoOK(e) ==
  LET b == e.b
      flatx == b[1] = b[3]  flaty == b[2] = b[4]
      corners == {<<b[1], b[2]>>, <<b[1], b[4]>>, <<b[3], b[4]>>, <<b[3], b[2]>>}
  IN /\ e.parts = 1
     /\ e.size = BoxArea(b)
     /\ e.rect = <<e.p[1] - e.lx, e.p[2] - e.ly, e.p[1] + e.lx, e.p[2] + e.ly>>
     /\ Rng(e.pts) = corners
     /\ IF flatx /\ flaty THEN e.kind = "Point" /\ Len(e.pts) = 1
        ELSE IF flatx \/ flaty THEN e.kind = "LineString" /\ Len(e.pts) = 2
        ELSE /\ e.kind = "Polygon" /\ Len(e.pts) = 5 /\ e.pts[1] = e.pts[5]
             /\ SimpleRing(e.pts)
G01OK(e) ==
  CASE e.op = "bbox" -> e.box = BoxOf(e.pts)
    [] e.op = "boxop" -> /\ e.u = BoxJoin(e.a, e.b) /\ e.after = <<e.a, e.b>>
                         /\ e.iab = Bool(BoxMeet(e.a, e.b)) /\ e.iba = e.iab
                         /\ e.cab = Bool(BoxIn(e.a, e.b))
                         /\ e.pin = Bool(PtInBox(e.a, e.p))
    [] e.op = "boxunion" -> e.u = BoxJoinAll(Rng(e.bs)) /\ e.after = e.bs
    [] OTHER -> BoxGeoOK(e)

(*----------------------------------- G02 ----------------------------------*)
G02Pre(e) == SimpleRing(e.poly[1])
G02OK(e) == \A k \in DOMAIN e.qs : e.rs[k] = PipRel(e.poly, e.qs[k])

(*----------------------------------- G03 ----------------------------------*)
G03OK(e) ==
  IF e.op = "segrel"
  THEN \A k \in DOMAIN e.ss :
         LET s == e.ss[k] r == SegRel(s[1], s[2], s[3], s[4])
             o == Bool(OnSeg(s[1], s[2], s[3]))
         IN e.rs[k] = <<r, r, r, r, o, o>>
  ELSE LET r == IF LinesMeet(e.l, e.k) THEN INTERSECT ELSE DISJOINT
       IN /\ e.r = <<r, r, r, r>>
          /\ \A k \in DOMAIN e.qs : e.ons[k] = Bool(OnLine(e.l, e.qs[k]))

(*----------------------------------- G04 ----------------------------------*)
\* least doubled area, in units of 2^-2u square degrees, that is 1e-10 or more
MinA2(u) == IF u = 17 THEN 4 ELSE 1
VerifyOK(poly, u) ==
  LET r == poly[1] lim == IF u = 17 THEN 1000000 ELSE 180 * 16 IN
  /\ Len(r) - 1 >= 3
  /\ \A k \in DOMAIN r : Abs(r[k][1]) <= lim /\ 2 * Abs(r[k][2]) <= lim
  /\ PolyArea2(poly) >= MinA2(u)
  /\ ~SelfCross(r)
G04OK(e) ==
  IF e.op = "selfx" THEN LET c == Bool(SelfCross(e.ring)) IN \A k \in DOMAIN e.rs : e.rs[k] = c
  ELSE e.ok = Bool(VerifyOK(e.poly, e.u))

(*----------------------------------- G05 ----------------------------------*)
Near(x, y, tol) == Abs(x - y) <= tol
RECURSIVE ISqrtUp(_, _, _)
\* floor of the square root, by bisection in [lo, hi)
ISqrtUp(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2 IN
                           IF m * m <= n THEN ISqrtUp(n, m, hi) ELSE ISqrtUp(n, lo, m)
ISqrt(n) == ISqrtUp(n, 0, 46340)
CenOK(c, nx, ny, den) == /\ IsRat(c[1]) /\ c[1][1] * den = nx * c[1][2]
                         /\ IsRat(c[2]) /\ c[2][1] * den = ny * c[2][2]
G05OK(e) ==
  CASE e.op = "poly" ->
         LET a == PolyArea2(e.poly) c == RegionCentroid(e.poly) IN
         /\ e.a2 = a /\ e.a2b = a
         /\ e.ccw = Bool(Area2(e.poly[1]) > 0)
         /\ a # 0 => CenOK(e.cen, c[1], c[2], c[3])
         \* a line counts as the region it goes around
         /\ LET s == RegionCentroid(<<e.poly[1]>>) IN s[3] # 0 => \A k \in DOMAIN e.lines : CenOK(e.lines[k], s[1], s[2], s[3])
         /\ e.pt = e.poly[1][2]
    [] e.op = "far" ->              \* in thousandths
         LET near(q, c) == /\ Near(q[1], (1000 * c[1]) \div c[3], 3) /\ Near(q[2], (1000 * c[2]) \div c[3], 3)
             a == PolyArea2(e.poly) c == RegionCentroid(e.poly) s == RegionCentroid(<<e.poly[1]>>) IN
         /\ Near(e.a2, 1000 * a, 3)
         /\ a # 0 => near(e.cen[1], c)
         /\ s[3] # 0 => near(e.line, s)
    [] e.op = "multi" ->
         /\ e.a2 = SumSeq([k \in DOMAIN e.polys |-> PolyArea2(e.polys[k])])
         /\ CenOK(e.cen, SumSeq([k \in DOMAIN e.pts |-> e.pts[k][1]]),
                         SumSeq([k \in DOMAIN e.pts |-> e.pts[k][2]]), Len(e.pts))
    [] OTHER ->
         LET n == Len(e.l) - 1
             s == SumSeq([k \in 1..n |-> ISqrt(2048 * 2048 * D2(e.l[k], e.l[k + 1]))])
         IN /\ e.len >= s - 1 /\ e.len <= s + n + 1
            /\ e.a2 = 2 * BoxArea(e.b)

(*----------------------------------- G06 ----------------------------------*)
G06OK(e) == e.rings = 1 /\ IsHull(e.h, Rng(e.pts))

(*----------------------------------- G07 ----------------------------------*)
FootOK(f, foot) == CenOK(f, foot[1], foot[2], foot[3])
G07OK(e) ==
  CASE e.op = "p2seg" ->
         /\ IsRat(e.d2) /\ REq(e.d2, SegD2(e.p, e.a, e.b))
         /\ FootOK(e.foot, SegFoot(e.p, e.a, e.b))
         /\ IsRat(e.ed2) /\ REq(e.ed2, <<D2(e.p, e.a), 1>>) /\ e.ar = Orient(e.a, e.b, e.p)
         /\ e.a # e.b =>
              LET D == D2(e.a, e.b) u == Dot(e.a, e.b, e.p) c == Orient(e.a, e.b, e.p) IN
              /\ IsRat(e.ld2) /\ REq(e.ld2, <<c * c, D>>)
              /\ IsRat(e.lu) /\ REq(e.lu, <<u, D>>)
              /\ FootOK(e.lfoot, <<e.a[1] * D + u * (e.b[1] - e.a[1]),
                                   e.a[2] * D + u * (e.b[2] - e.a[2]), D>>)
    [] e.op = "ppoly" -> \A k \in DOMAIN e.qs :
                            IsRat(e.d2s[k]) /\ REq(e.d2s[k], PolyD2(e.qs[k], e.poly))
    [] e.op = "hit" ->
         LET d == LineD2(e.p, e.l)
             best == {k \in 1..(Len(e.l) - 1) : REq(SegD2(e.p, e.l[k], e.l[k + 1]), d)} IN
         /\ IsRat(e.d2) /\ REq(e.d2, d)
         /\ e.i \in best
         /\ FootOK(e.foot, SegFoot(e.p, e.l[e.i], e.l[e.i + 1]))
    [] OTHER -> LET d == D2(e.a, e.b) IN
         /\ e.d2 = HausD2(e.l, e.k) /\ e.d2b = e.d2
         /\ e.e2 = <<d, d, d>>
         /\ e.z2 = d + (e.za - e.zb) * (e.za - e.zb)

(*----------------------------------- G08 ----------------------------------*)
G08OK(e) == IsSimplified(e.l, <<e.tp, e.tq>>, e.r)

(*----------------------------------- G10 ----------------------------------*)
G10OK(e) ==
  LET S == Rng(e.pts) q == e.q
      K == 1000                       \* corners are in thousandths
      side(k) == ISqrt(D2(q[k], q[k + 1]))
      tol == 3 IN                     \* thousandths, for the 1e-4 rounding
  /\ e.rings = 1 /\ Len(q) = 5
  /\ \A k \in 1..5 : Abs(q[k][1]) < 25000 /\ Abs(q[k][2]) < 25000
  /\ \A k \in 1..4 : Abs(q[k][1] - q[k + 1][1]) < 25000 /\ Abs(q[k][2] - q[k + 1][2]) < 25000
  /\ Abs(q[1][1] - q[5][1]) <= tol /\ Abs(q[1][2] - q[5][2]) <= tol
  \* opposite sides are equal and adjacent sides perpendicular
  /\ Abs(q[1][1] + q[3][1] - q[2][1] - q[4][1]) <= 2 * tol
  /\ Abs(q[1][2] + q[3][2] - q[2][2] - q[4][2]) <= 2 * tol
  /\ Abs((q[2][1] - q[1][1]) * (q[3][1] - q[2][1]) + (q[2][2] - q[1][2]) * (q[3][2] - q[2][2]))
       <= tol * (side(1) + side(2) + 2)
  \* every point is inside, up to the rounding
  /\ LET sg == Sgn(Orient(q[1], q[2], q[3])) IN
     /\ sg # 0
     /\ \A p \in S : \A k \in 1..4 :
          sg * Orient(q[k], q[k + 1], <<K * p[1], K * p[2]>>) >= -(tol * (side(k) + 2))
  \* and the area is the least
  /\ LET a == Abs(Orient(q[1], q[2], q[3])) \div K
         l == LeastRectOf(S)
         want == (l[1] * K) \div l[2]
     IN Abs(a - want) <= (tol * (side(1) + side(2))) \div K + 4

(*----------------------------------- G11 ----------------------------------*)
SegShares(poly, a, b) == \/ PipRel(poly, a) # DISJOINT
                         \/ \E d \in PolyEdges(poly) : Meet(a, b, d[1], d[2])
SegInside(poly, a, b) == /\ PipRel(poly, a) = CONTAIN
                         /\ \A d \in PolyEdges(poly) : ~Meet(a, b, d[1], d[2])
SegCrosses(poly, a, b) == \E d \in PolyEdges(poly) : ProperCross(a, b, d[1], d[2])
SegPolyOK(poly, a, b, r) ==
  IF SegCrosses(poly, a, b) THEN r = INTERSECT
  ELSE IF ~SegShares(poly, a, b) THEN r = DISJOINT
  ELSE IF SegInside(poly, a, b) THEN r = CONTAIN
  ELSE LET in1 == PipRel(poly, a) # DISJOINT in2 == PipRel(poly, b) # DISJOINT IN
       r = IF in1 /\ in2 THEN COVER ELSE IF in1 \/ in2 THEN UNKNOWN ELSE TOUCH
LinePolyOK(poly, l, r) ==
  LET I == 1..(Len(l) - 1) IN
  IF \E k \in I : SegCrosses(poly, l[k], l[k + 1]) THEN r = INTERSECT
  ELSE IF \A k \in I : ~SegShares(poly, l[k], l[k + 1]) THEN r = DISJOINT
  ELSE IF \A k \in I : SegInside(poly, l[k], l[k + 1]) THEN r = CONTAIN
  ELSE r \in {UNKNOWN, TOUCH, COVER}
G11OK(e) ==
  CASE e.op = "segpoly" -> \A k \in DOMAIN e.ss : SegPolyOK(e.poly, e.ss[k][1], e.ss[k][2], e.rs[k])
    [] e.op = "linepoly" -> LinePolyOK(e.poly, e.l, e.r)
    [] OTHER -> \A k \in DOMAIN e.rs : LinePolyOK(e.poly, e.l, e.rs[k])

(*----------------------------------- V01 ----------------------------------*)
\* clockwise rotation of p about c by the angle of cosine ro[1]/ro[3] and sine ro[2]/ro[3],
\* in units of 1/10000; results of the library are truncated to that unit
\* for coordinates that are multiples of 1/den
CWx(p, c, ro, den) == (10000 * ((p[1] - c[1]) * ro[1] + (p[2] - c[2]) * ro[2] + c[1] * ro[3])) \div (ro[3] * den)
CWy(p, c, ro, den) == (10000 * ((c[1] - p[1]) * ro[2] + (p[2] - c[2]) * ro[1] + c[2] * ro[3])) \div (ro[3] * den)
RotOK(p, c, ro, den, q) == Near(q[1], CWx(p, c, ro, den), 2) /\ Near(q[2], CWy(p, c, ro, den), 2)
RotEvOK(e) ==
  LET inv == <<e.ro[1], -e.ro[2], e.ro[3]>> IN
  /\ \A k \in DOMAIN e.ps :
       /\ RotOK(e.ps[k], e.c, e.ro, e.den, e.cw[k])
       /\ RotOK(e.ps[k], e.c, inv, e.den, e.ccw[k])
       /\ Near(e.back[k][1], (10000 * e.ps[k][1]) \div e.den, 3) /\ Near(e.back[k][2], (10000 * e.ps[k][2]) \div e.den, 3)
  /\ Len(e.poly) = Len(e.rings)
  /\ \A j \in DOMAIN e.rings :
       /\ Len(e.poly[j]) = Len(e.rings[j])
       /\ \A k \in DOMAIN e.rings[j] : RotOK(e.rings[j][k], e.c, e.ro, e.den, e.poly[j][k])
       /\ e.poly[j][Len(e.poly[j])] = e.poly[j][1]
\* a turn by q quarters and k millionths of a radian, |k| <= 10000, from its series
QuarterCW(v, q) == CASE q % 4 = 0 -> v [] q % 4 = 1 -> <<v[2], -v[1]>> [] q % 4 = 2 -> <<-v[1], -v[2]>> [] OTHER -> <<-v[2], v[1]>>
LittleCW(v, k, m) == LET kk == (k * k) \div 10000 IN
  <<10000 * m * v[1] + ((v[2] * k) \div 100) - ((v[1] * kk) \div (20000 * m)), 10000 * m * v[2] - ((v[1] * k) \div 100) - ((v[2] * kk) \div (20000 * m))>>
SmallRotOK(e) ==
  /\ Len(e.cw) = Len(e.ps) /\ Len(e.ccw) = Len(e.ps)
  /\ \A n \in DOMAIN e.ps :
       LET v == <<(e.ps[n][1] - e.c[1]) \div e.m, (e.ps[n][2] - e.c[2]) \div e.m>>
           a == LittleCW(QuarterCW(v, e.q), e.k, e.m) b == LittleCW(QuarterCW(v, -e.q), -e.k, e.m) IN
       /\ Near(e.cw[n][1], 10000 * e.c[1] + a[1], 4) /\ Near(e.cw[n][2], 10000 * e.c[2] + a[2], 4)
       /\ Near(e.ccw[n][1], 10000 * e.c[1] + b[1], 4) /\ Near(e.ccw[n][2], 10000 * e.c[2] + b[2], 4)
AngleEvOK(e) ==
  LET v == <<e.p[1] - e.c[1], e.p[2] - e.c[2]>>
      u == <<e.q[1] - e.c[1], e.q[2] - e.c[2]>>
      dot == v[1] * u[1] + v[2] * u[2]
      crs == v[1] * u[2] - v[2] * u[1]
      deg == v = <<0, 0>> \/ u = <<0, 0>>
      sz == Abs(dot) + Abs(crs) IN
  /\ e.err = Bool(deg) /\ e.cerr = Bool(deg)
  /\ u = <<0, 0>> => e.qerr = 1
  /\ ~deg =>
       /\ e.mr >= 0 /\ e.mr <= 6283
       /\ Abs(e.sn) <= 1000000 /\ Abs(e.cs) <= 1000000
       /\ Abs(e.sn * dot - e.cs * crs) <= 4 * sz      \* the angle from v to u ...
       /\ e.cs * dot + e.sn * crs > 0                 \* ... and not its opposite
       /\ e.qerr = 0 /\ e.qmr >= 0 /\ e.qmr <= 6283
       /\ Abs(e.qsn * u[1] - e.qcs * u[2]) <= 4 * (Abs(u[1]) + Abs(u[2]))   \* the angle from the x axis to u
       /\ e.qcs * u[1] + e.qsn * u[2] > 0
       /\ e.cx = IF crs > 0 THEN 1 ELSE IF crs < 0 THEN 0 ELSE 2
  /\ e.v = <<v, u, <<v[1] + u[1], v[2] + u[2]>>, <<v[1] - u[1], v[2] - u[2]>>,
             <<e.k * v[1], e.k * v[2]>>, <<v[1] + u[1], v[2] + u[2]>>, v>>
  /\ e.s = <<dot, crs, v[1] * v[1] + v[2] * v[2], v[1] * v[1] + v[2] * v[2], Bool(v = u), 1>>
  /\ v # <<0, 0>> =>
       /\ Abs(e.un[1]) <= 10001 /\ Abs(e.un[2]) <= 10001
       /\ Abs(e.un[1] * v[2] - e.un[2] * v[1]) <= 2 * (Abs(v[1]) + Abs(v[2]))
       /\ e.un[1] * v[1] + e.un[2] * v[2] > 0
       /\ Near(e.un[1] * e.un[1] + e.un[2] * e.un[2], 100000000, 40000)
\* u, in millionths, has length 1 and points along v
UnitOK(v, u) ==
  LET h == <<u[1] \div 1000, u[2] \div 1000>> l == <<u[1] % 1000, u[2] % 1000>> IN
  /\ Abs(u[1]) <= 1000001 /\ Abs(u[2]) <= 1000001
  /\ Abs(u[1] * v[2] - u[2] * v[1]) <= Abs(v[1]) + Abs(v[2])
  /\ u[1] * v[1] + u[2] * v[2] > 0
  /\ Near(1000 * (h[1] * h[1] + h[2] * h[2]) + 2 * (h[1] * l[1] + h[2] * l[2])
          + ((l[1] * l[1] + l[2] * l[2]) \div 1000), 1000000000, 3000)
NormEvOK(e) == Len(e.u) = 3 /\ \A k \in 1..3 : UnitOK(e.v, e.u[k])
BufferEvOK(e) ==
  LET q == e.q n == Len(q) - 1 IN
  IF e.neg = 1 THEN e.rings = 0
  ELSE IF e.zero = 1 THEN e.rings = 1 /\ \A k \in DOMAIN q : q[k] = <<0, 0>>
  ELSE /\ e.rings = 1 /\ n >= 24
       /\ \A k \in DOMAIN q : Abs(q[k][1]) <= 20000 /\ Abs(q[k][2]) <= 20000
       /\ Near(q[1][1], q[n + 1][1], 2) /\ Near(q[1][2], q[n + 1][2], 2)
       /\ \A k \in DOMAIN q : Near(q[k][1] * q[k][1] + q[k][2] * q[k][2], 100000000, 60000)
       \* equal positive steps: chord 2 sin(pi/n), and together once around
       /\ \A k \in 1..n : /\ Orient(<<0, 0>>, q[k], q[k + 1]) > 0
                          /\ Near(D2(q[k], q[k + 1]), D2(q[1], q[2]), 5 * ISqrt(D2(q[1], q[2])) + 12)
       /\ Cardinality({k \in 1..n : q[k][2] < 0 /\ q[k + 1][2] >= 0}) = 1
V01OK(e) == CASE e.op = "rot" -> RotEvOK(e)
               [] e.op = "rotk" -> SmallRotOK(e)
              [] e.op = "angle" -> AngleEvOK(e)
              [] e.op = "norm" -> NormEvOK(e)
              [] OTHER -> BufferEvOK(e)

(*--------------------------------------------------------------------------*)
PropOf(op) ==
  CASE op \in {"bbox", "boxop", "boxunion", "boxgeo"} -> "G01"
    [] op = "pip" -> "G02"
    [] op \in {"segrel", "linerel"} -> "G03"
    [] op \in {"selfx", "verify"} -> "G04"
    [] op \in {"poly", "far", "multi", "len"} -> "G05"
    [] op = "hull" -> "G06"
    [] op \in {"p2seg", "ppoly", "hit", "haus"} -> "G07"
    [] op = "dp" -> "G08"
    [] op = "mbr" -> "G10"
    [] op \in {"segpoly", "linepoly", "ringpoly"} -> "G11"
    [] op \in {"rot", "rotk", "angle", "norm", "buffer"} -> "V01"
OK(e) == LET p == PropOf(e.op) IN
  CASE p = "G01" -> G01OK(e) [] p = "G02" -> G02OK(e) [] p = "G03" -> G03OK(e)
    [] p = "G04" -> G04OK(e) [] p = "G05" -> G05OK(e) [] p = "G06" -> G06OK(e)
    [] p = "G07" -> G07OK(e) [] p = "G08" -> G08OK(e) [] p = "G10" -> G10OK(e)
    [] p = "G11" -> G11OK(e) [] p = "V01" -> V01OK(e)
\* inputs the property does not speak about would make a verdict meaningless
Pre(e) == /\ e.op \in {"pip", "segpoly", "linepoly", "ringpoly", "ppoly"} =>
               \A k \in DOMAIN e.poly : SimpleRing(e.poly[k])
Bad(e) == IF ~Pre(e) THEN {"PRE"}
          ELSE IF e.pn = 1 \/ ~OK(e) THEN {PropOf(e.op)} ELSE {}
Init == LaneInit(Bad)
Next == LaneNext(Bad)
=============================================================================
