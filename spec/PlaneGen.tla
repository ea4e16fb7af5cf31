------------------------------ MODULE PlaneGen ------------------------------
(***************************************************************************)
(* Every small figure of the plane: all sequences of up to N points of a   *)
(* G by G grid.  On each figure the vocabulary of Geom is checked against  *)
(* independent formulations (parametric crossing, lattice-point counting,  *)
(* winding number, sampling of segments, all directions), and each figure  *)
(* of interest is emitted for the library to calculate with.               *)
(***************************************************************************)
EXTENDS Geom, Json
CONSTANTS G, N, What
VARIABLE f
Grid == (0..(G - 1)) \X (0..(G - 1))
Init == f = <<>>
Next == Len(f) < N /\ \E p \in Grid : f' = Append(f, p)
Close(s) == Append(s, s[1])
Triangles == {t \in Grid \X Grid \X Grid : Orient(t[1], t[2], t[3]) > 0}

(*-------------------------------- segments --------------------------------*)
\* the crossing of two segments by parameters: p + t r = q + u s with t = tn/den, u = un/den
Parametric(p, p2, q, q2) ==
  LET r == <<p2[1] - p[1], p2[2] - p[2]>> s == <<q2[1] - q[1], q2[2] - q[2]>> w == <<q[1] - p[1], q[2] - p[2]>>
      X(a, b) == a[1] * b[2] - a[2] * b[1]
      sg == Sgn(X(r, s)) den == Abs(X(r, s)) tn == sg * X(w, s) un == sg * X(w, r) IN
  IF den = 0
  THEN IF X(w, r) # 0 \/ X(w, s) # 0 THEN DISJOINT
       ELSE IF BoxMeet(BoxOf(<<p, p2>>), BoxOf(<<q, q2>>)) THEN TOUCH ELSE DISJOINT
  ELSE IF 0 < tn /\ tn < den /\ 0 < un /\ un < den THEN INTERSECT
  ELSE IF 0 <= tn /\ tn <= den /\ 0 <= un /\ un <= den THEN TOUCH ELSE DISJOINT
SegLaw == Len(f) = 4 =>
  LET r == SegRel(f[1], f[2], f[3], f[4]) IN
  /\ r = Parametric(f[1], f[2], f[3], f[4])
  /\ r = SegRel(f[3], f[4], f[1], f[2]) /\ r = SegRel(f[2], f[1], f[3], f[4]) /\ r = SegRel(f[1], f[2], f[4], f[3])
  /\ OnSeg(f[1], f[2], f[3]) <=> D2(f[1], f[2]) * D2(f[1], f[2]) = Dot(f[1], f[2], f[3]) * D2(f[1], f[2]) + Dot(f[2], f[1], f[3]) * D2(f[1], f[2])
                                 /\ SegD2(f[3], f[1], f[2])[1] = 0

(*---------------------------------- rings ----------------------------------*)
IsFigure == Len(f) >= 3 /\ SimpleRing(Close(f))
Wide == ((-1)..G) \X ((-1)..G)
\* how often the ring goes round p: upward less downward crossings of the ray
Winding(r, p) == LET I == 1..(Len(r) - 1)
                     up == {i \in I : r[i][2] <= p[2] /\ r[i + 1][2] > p[2] /\ Orient(r[i], r[i + 1], p) > 0}
                     dn == {i \in I : r[i][2] > p[2] /\ r[i + 1][2] <= p[2] /\ Orient(r[i], r[i + 1], p) < 0}
                 IN Cardinality(up) - Cardinality(dn)
PipLaw == IsFigure =>
  LET r == Close(f) IN
  /\ \A p \in Wide : ~OnRing(r, p) => /\ InRing(r, p) = (Winding(r, p) # 0)
                                      /\ Winding(r, p) \in {0, Sgn(Area2(r))}
  /\ \A k \in 1..(Len(r) - 1) : \A p \in Wide : PipRel(<<RotRing(r, k)>>, p) = PipRel(<<Reverse(r)>>, p)
\* Pick: twice the area is twice the inner lattice points plus those on the border less two
PickLaw == IsFigure =>
  LET r == Close(f) I == {p \in Grid : PipRel(<<r>>, p) = CONTAIN} B == {p \in Grid : OnRing(r, p)} IN
  PolyArea2(<<r>>) = 2 * Cardinality(I) + Cardinality(B) - 2
\* the centroid from the fan of triangles at the first vertex
CentroidLaw == IsFigure =>
  LET r == Close(f) c == RegionCentroid(<<r>>)
      tri(k) == Orient(f[1], f[k], f[k + 1])
      sum(ax) == Sgn(Area2(r)) * SumSeq([k \in 1..(Len(f) - 2) |-> tri(k + 1) * (f[1][ax] + f[k + 1][ax] + f[k + 2][ax])])
  IN c = <<sum(1), sum(2), 3 * Abs(Area2(r))>>
SelfLaw == Len(f) >= 3 =>
  LET r == Close(f) IN
  /\ SimpleRing(r) => ~SelfCross(r)
  /\ \A k \in 1..(Len(r) - 1) : SelfCross(RotRing(r, k)) = SelfCross(r) /\ SelfCross(Reverse(RotRing(r, k))) = SelfCross(r)

(*-------------------------------- distances --------------------------------*)
\* no point of the segment, sampled at every tenth, is nearer than its distance; the foot attains it
DistLaw == Len(f) = 3 =>
  LET d == SegD2(f[3], f[1], f[2]) c == SegFoot(f[3], f[1], f[2])
      at(k) == <<10 * f[1][1] + k * (f[2][1] - f[1][1]), 10 * f[1][2] + k * (f[2][2] - f[1][2])>>
      far(k) == <<D2(<<10 * f[3][1], 10 * f[3][2]>>, at(k)), 100>> IN
  /\ \A k \in 0..10 : RLe(d, far(k))
  /\ REq(d, <<D2(<<c[1], c[2]>>, <<c[3] * f[3][1], c[3] * f[3][2]>>), c[3] * c[3]>>)
  /\ d = SegD2(f[3], f[2], f[1]) \/ REq(d, SegD2(f[3], f[2], f[1]))

(*------------------------------ least rectangle ------------------------------*)
\* no direction between two points gives a smaller rectangle than the hull's edges
RectLaw == Len(f) >= 3 /\ ~AllCollinear(Rng(f)) =>
  \A a \in Rng(f), b \in Rng(f) : a # b => RLe(LeastRectOf(Rng(f)), EdgeRectOf(Rng(f), a, b))

(*---------------------------- segment and polygon ----------------------------*)
\* the library's way: edges first, then the ends
ByParts(poly, a, b) ==
  LET rel == {SegRel(d[1], d[2], a, b) : d \in PolyEdges(poly)}
      near == TOUCH \in rel
      in1 == PipRel(poly, a) # DISJOINT in2 == PipRel(poly, b) # DISJOINT IN
  IF INTERSECT \in rel THEN INTERSECT
  ELSE IF in1 /\ in2 THEN IF near THEN COVER ELSE CONTAIN
  ELSE IF ~in1 /\ ~in2 THEN IF near THEN TOUCH ELSE DISJOINT
  ELSE UNKNOWN
Shares(poly, a, b) == PipRel(poly, a) # DISJOINT \/ \E d \in PolyEdges(poly) : Meet(a, b, d[1], d[2])
RelLaw == IsFigure =>
  \A a \in Grid, b \in Grid :
    LET r == ByParts(<<Close(f)>>, a, b) IN
    /\ (r = DISJOINT) = ~Shares(<<Close(f)>>, a, b)
    /\ (r = INTERSECT) = (\E d \in PolyEdges(<<Close(f)>>) : ProperCross(a, b, d[1], d[2]))
    /\ (r = CONTAIN) = (PipRel(<<Close(f)>>, a) = CONTAIN /\ \A d \in PolyEdges(<<Close(f)>>) : ~Meet(a, b, d[1], d[2]))
    /\ r = COVER => PipRel(<<Close(f)>>, b) # DISJOINT
    \* sampled at every quarter: inside all along means no sample outside, apart means none inside
    /\ LET big == <<[k \in 1..(Len(f) + 1) |-> <<4 * Close(f)[k][1], 4 * Close(f)[k][2]>>]>>
           at(k) == <<4 * a[1] + k * (b[1] - a[1]), 4 * a[2] + k * (b[2] - a[2])>> IN
       /\ r = CONTAIN => \A k \in 0..4 : PipRel(big, at(k)) = CONTAIN
       /\ r = DISJOINT => \A k \in 0..4 : PipRel(big, at(k)) = DISJOINT

(*---------------------------------- boxes ----------------------------------*)
BoxLaw == Len(f) = 4 =>
  LET a == BoxOf(<<f[1], f[2]>>) b == BoxOf(<<f[3], f[4]>>)
      pa == {p \in Grid : PtInBox(a, p)} pb == {p \in Grid : PtInBox(b, p)} pu == {p \in Grid : PtInBox(BoxJoin(a, b), p)} IN
  /\ BoxMeet(a, b) = (pa \cap pb # {}) /\ BoxIn(a, b) = (pb \subseteq pa)
  /\ pa \cup pb \subseteq pu /\ BoxJoin(a, b) = BoxOf(f)

Interesting == CASE What = "G03" -> Len(f) = 2
                 [] What \in {"G02", "G05", "G11"} -> IsFigure /\ \A k \in DOMAIN f : f[1][1] * G + f[1][2] <= f[k][1] * G + f[k][2]
                 [] What = "G04" -> Len(f) >= 3 /\ f[1] # f[Len(f)] /\ (\A k \in 1..(Len(f) - 1) : f[k] # f[k + 1]) /\ \A k \in DOMAIN f : f[1][1] * G + f[1][2] <= f[k][1] * G + f[k][2]
                 [] What \in {"G06", "G10"} -> Len(f) >= 3 /\ ~AllCollinear(Rng(f))
                 [] What = "G07" -> Len(f) = 2
                 [] What = "G08" -> Len(f) >= 3
                 [] What = "G01" -> Len(f) = 2
                 [] OTHER -> FALSE
Emit == Interesting => PrintT(<<"BEHAVIOUR", ToJson(f)>>)
=============================================================================
